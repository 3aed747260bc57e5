From b55faa953970f84c5a022e85e845d366595906e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 01/10] fix: overflow detection and carry of rounding in
 diy_fp::downsample

The exponent of the normalized mantissa was compared without the mantissa
width, so values above the maximum got a garbage exponent, and the carry of
rounding up a full mantissa was masked out instead of moving to the exponent.
---
 include/floaxie/diy_fp.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..40afd0a 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -197,13 +197,12 @@ namespace floaxie
 			constexpr auto full_mantissa_bit_size(std::numeric_limits<FloatType>::digits);
 			constexpr auto mantissa_bit_size(full_mantissa_bit_size - 1); // remember hidden bit
 			constexpr mantissa_storage_type my_mantissa_size(bit_size<mantissa_storage_type>());
-			constexpr mantissa_storage_type mantissa_mask(mask<mantissa_storage_type>(mantissa_bit_size));
 			constexpr exponent_storage_type exponent_bias(std::numeric_limits<FloatType>::max_exponent - 1 + mantissa_bit_size);
 			constexpr std::size_t lsb_pow(my_mantissa_size - full_mantissa_bit_size);
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
@@ -223,13 +222,18 @@ namespace floaxie
 
 			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
 
-			mantissa_storage_type parts = m_e + shift_amount + exponent_bias - (denorm_exp > lsb_pow);
+			// hidden bit (as well as the carry of rounding) is added to the exponent
+			mantissa_storage_type parts = m_e + shift_amount + exponent_bias - 1;
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			parts += (f >> shift_amount) + round.value;
 
 			ret.value = type_punning_cast<FloatType>(parts);
+
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			ret.is_accurate = round.is_accurate;
 
 			return ret;
-- 
2.43.0


From bb514f430267ce50dd148330cd325b1c84d0a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 02/10] fix: underflow threshold in diy_fp::downsample

Values between the half of the least denormalized value and the value itself
were flushed to zero, and values rounded to zero weren't reported as underflow.
---
 include/floaxie/diy_fp.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 40afd0a..fc83fd7 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -209,7 +209,8 @@ namespace floaxie
 				return ret;
 			}
 
-			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size))
+			// less than a half of the least denormalized value
+			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 1)
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
@@ -218,7 +219,7 @@ namespace floaxie
 
 			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
 
-			assert(denorm_exp < my_mantissa_size);
+			assert(denorm_exp <= my_mantissa_size);
 
 			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
 
@@ -227,12 +228,14 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts += (f >> shift_amount) + round.value;
+			parts += (shift_amount < my_mantissa_size ? f >> shift_amount : 0) + round.value;
 
 			ret.value = type_punning_cast<FloatType>(parts);
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
+			else if (ret.value == FloatType(0))
+				ret.status = conversion_status::underflow;
 
 			ret.is_accurate = round.is_accurate;
 
-- 
2.43.0


From 708a2f1f6addceef45c3ae9edd29a834b0b41df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 03/10] fix: sign of the values being out of range of the
 powers of ten in krosh

---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..359eb36 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -575,6 +575,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 59e727c3f64589eaa73674819e9aa266b5ef3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 04/10] fix: denormalized values below the table of powers of
 ten in krosh

The table for float ends at 1e-50, while mantissa can have up to nine digits,
so e. g. 999999999e-51 is denormalized rather than zero: use the fallback.
---
 include/floaxie/krosh.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 359eb36..b8bb588 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -568,18 +568,20 @@ namespace floaxie
 					{
 						ret.value = FloatType(0);
 						ret.status = conversion_status::underflow;
+						// being below the table doesn't mean being below the least denormalized value
+						ret.is_accurate = mp.K + int(decimal_q<FloatType>) < std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10;
 					}
 					else // !b2
 					{
 						ret.value = huge_value<FloatType>();
 						ret.status = conversion_status::overflow;
+						ret.is_accurate = true;
 					}
 
 					if (!mp.sign)
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
 
 					return ret;
 				}
-- 
2.43.0


From e5b2e026d285ef054cc09d43f1f18462fa16b36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 05/10] fix: exponent part parsing

Exponents of four and more digits, ones with a decimal point or containing
special values led to reading out of bounds of the table of powers or to
wrapped values, and exponent mark without any digits was consumed.
---
 include/floaxie/krosh.h | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index b8bb588..39dc8a8 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,8 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Threshold of the exponent value to stop accumulating its digits at. */
+	constexpr int maximum_exponent(100000);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -478,25 +478,36 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
+
+		ret.value = 0;
+		ret.str_end = str;
+
 		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
-		{
-			++str;
+			return ret;
 
-			const auto& digit_parts(parse_digits<float>(str));
+		++str;
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+		const bool negative(*str == '-');
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+		if (*str == '-' || *str == '+')
+			++str;
+
+		// no exponent part without digits
+		if (*str < '0' || *str > '9')
+			return ret;
 
-			ret.str_end = digit_parts.str_end;
+		for (; *str >= '0' && *str <= '9'; ++str)
+		{
+			// saturated value is still far beyond the range of any type
+			if (ret.value < maximum_exponent)
+				ret.value = ret.value * 10 + (*str - '0');
 		}
 
+		if (negative)
+			ret.value = -ret.value;
+
+		ret.str_end = str;
+
 		return ret;
 	}
 
-- 
2.43.0


From d074e65630f36b7b2646abfbf9459ec5ce76582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 06/10] fix: don't consume anything from the strings without
 digits

Lonely signs, decimal points and incomplete special values were consumed
as if they were converted successfully.
---
 include/floaxie/krosh.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 39dc8a8..61013ab 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -240,6 +240,7 @@ namespace floaxie
 
 		bool dot_set(false);
 		bool sign_set(false);
+		bool digit_set(false);
 		bool frac_calculated(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
@@ -253,6 +254,8 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digit_set = true;
+
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -269,6 +272,8 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digit_set = true;
+
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -318,10 +323,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_nan(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::nan;
+					}
 				}
 
 				go_to_beach = true;
@@ -332,10 +339,12 @@ namespace floaxie
 				if (pos == sign_set)
 				{
 					const std::size_t eaten = eat_inf(str + pos + 1);
-					pos += eaten + 1;
 
 					if (eaten)
+					{
+						pos += eaten + 1;
 						ret.special = speciality::inf;
+					}
 				}
 
 				go_to_beach = true;
@@ -365,7 +374,8 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// no conversion could be performed without any digits
+		ret.str_end = digit_set || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From 72a57dae6042daae5a901ffd7e5b8652a57b17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 07/10] fix: consume exponent part after null mantissa

---
 include/floaxie/krosh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 61013ab..a45b67b 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -632,7 +632,8 @@ namespace floaxie
 				break;
 			}
 
-			ret.str_end = mp.str_end;
+			// null mantissa with the digits present may have exponent part, too
+			ret.str_end = mp.special == speciality::no && mp.str_end != str ? parse_exponent(mp.str_end).str_end : mp.str_end;
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From 0d9ffd40f7f8a4f6990f1b10a7494b258b6882f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 08/10] fix: fall back when rounding of krosh result can't be
 decided due to accumulated error

---
 include/floaxie/diy_fp.h | 13 +++++++++++--
 include/floaxie/krosh.h  | 20 ++++++++++++++++++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index fc83fd7..239b73e 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,12 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param error upper bound of the absolute error of the mantissa (in
+		 * units in the last place), which the result is checked against.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type error = 0)
 		{
 			downsample_result ret;
 
@@ -214,6 +217,8 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				ret.is_accurate = m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 2
+					|| max_integer_value<FloatType>() - f >= error;
 				return ret;
 			}
 
@@ -237,7 +242,11 @@ namespace floaxie
 			else if (ret.value == FloatType(0))
 				ret.status = conversion_status::underflow;
 
-			ret.is_accurate = round.is_accurate;
+			// distance to the middle point between two adjacent values should exceed the error
+			const auto middle(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+
+			ret.is_accurate = (tail > middle ? tail - middle : middle - tail) > error;
 
 			return ret;
 		}
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index a45b67b..e4a195e 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -42,6 +42,12 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits of fraction part, which can be observed. */
 	constexpr std::size_t fraction_decimal_digits(4);
 
+	/** \brief Upper bound of the mantissa error (in units in the last place) after multiplication by power of ten. */
+	constexpr unsigned int multiplication_error(3);
+
+	/** \brief Upper bound of the mantissa error (in units in the last place), if some digits don't fit it. */
+	template<typename FloatType> constexpr unsigned int truncation_error = sizeof(FloatType) == sizeof(float) ? 12 : 8;
+
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
@@ -186,7 +192,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true), truncated(false) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -207,6 +213,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag of significant digits, which didn't fit the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Unified method to extract and parse digits in one pass.
@@ -377,6 +386,7 @@ namespace floaxie
 		// no conversion could be performed without any digits
 		ret.str_end = digit_set || ret.special != speciality::no ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
+		ret.truncated = frac_calculated;
 
 		return ret;
 	}
@@ -402,6 +412,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag of significant digits, which didn't fit the mantissa. */
+		bool truncated;
 	};
 
 	/** \brief Tides up results of `parse_digits` for **Krosh** to use.
@@ -429,6 +442,7 @@ namespace floaxie
 		ret.special = digits_parts.special;
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
+		ret.truncated = digits_parts.truncated;
 
 		if (digits_parts.special == speciality::no)
 		{
@@ -609,7 +623,9 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+
+			const auto error(mp.truncated ? truncation_error<FloatType> : mp.K ? multiplication_error : 0);
+			const auto& v(w.downsample(error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From ba3e44a55d533579e3bb57d51af88f9dc2681f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 09/10] fix: status of the conversions made by fallback
 function

---
 include/floaxie/atof.h             | 8 ++++++++
 include/floaxie/default_fallback.h | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..edc7380 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_ATOF_H
 #define FLOAXIE_ATOF_H
 
+#include <cerrno>
 #include <string>
 
 #include <floaxie/krosh.h>
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// status shouldn't depend on errors occurred before the call
+				const auto saved_errno(errno);
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (!errno)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..9ee3eb9 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,6 +17,8 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cwchar>
 
@@ -87,7 +89,11 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (std::isinf(returned_value))
+			return conversion_status::overflow;
+
+		// ERANGE is also set for inexact denormalized values
+		return returned_value ? conversion_status::success : conversion_status::underflow;
 	}
 }
 
-- 
2.43.0


From 95d8bab6c665e9fc9d43ff2a88781cf35f7452ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 10/10] fix: memset and memmove wrappers for char16_t and
 char32_t

---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..bc0322b 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +29,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +48,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


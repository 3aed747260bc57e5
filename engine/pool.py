"""Runs tasks in forked worker processes, within a deadline."""
import os, sys, time, pickle, select, signal, struct, traceback


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    h = b''
    while len(h) < 4:
        x = os.read(fd, 4 - len(h))
        if not x:
            return None
        h += x
    n = struct.unpack('<I', h)[0]
    d = b''
    while len(d) < n:
        x = os.read(fd, min(1 << 20, n - len(d)))
        if not x:
            return None
        d += x
    return pickle.loads(d)


def run(tasks, fn, nproc, deadline, on_result, task_limit=None):
    """fn(task) in workers; on_result(task, result or None, error) in the parent, which may
    return True to stop.  Tasks not finished at `deadline` are returned."""
    tasks = list(tasks)
    todo = list(range(len(tasks)))
    todo.reverse()
    workers = {}

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in workers.values():
                    os.close(w['out'])
                    os.close(w['in'])
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                while True:
                    t = _recv(r1)
                    if t is None:
                        break
                    try:
                        r = (fn(tasks[t]), None)
                    except Exception as e:
                        r = (None, '%s: %s\n%s' % (type(e).__name__, str(e)[:500], ''.join(traceback.format_tb(e.__traceback__)[-3:])[-1500:]))
                    _send(w2, (t, r))
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        workers[pid] = {'out': w1, 'in': r2, 'task': None, 'since': 0}
        return pid

    def kill(pid):
        w = workers.pop(pid)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(w['out'])
        os.close(w['in'])
        os.waitpid(pid, 0)

    undone = []
    stop = False
    try:
        while True:
            now = time.time()
            if now > deadline or stop:
                break
            while todo and len(workers) < nproc and len(workers) < len(tasks):
                spawn()
            for pid, w in list(workers.items()):
                if w['task'] is None and todo:
                    w['task'] = todo.pop()
                    w['since'] = now
                    _send(w['out'], w['task'])
            busy = [w for w in workers.values() if w['task'] is not None]
            if not busy:
                break
            rd, _, _ = select.select([w['in'] for w in busy], [], [], max(0.05, min(1.0, deadline - now)))
            for pid, w in list(workers.items()):
                if w['in'] in rd:
                    m = _recv(w['in'])
                    t = w['task']
                    w['task'] = None
                    if m is None:
                        kill(pid)
                        if on_result(tasks[t], None, 'worker died (out of memory?)'):
                            stop = True
                    else:
                        if on_result(tasks[t], m[1][0], m[1][1]):
                            stop = True
                elif w['task'] is not None and task_limit and now - w['since'] > task_limit:
                    t = w['task']
                    kill(pid)
                    if on_result(tasks[t], None, 'task limit of %d s' % task_limit):
                        stop = True
    finally:
        for pid, w in list(workers.items()):
            if w['task'] is not None:
                undone.append(tasks[w['task']])
            kill(pid)
    if not stop:
        undone += [tasks[t] for t in todo]
    return undone

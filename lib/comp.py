"""Checks of single components: cases of a bounded space (every one of them, from a *Gen module) and larger random
ones are run on the real code by a driver, the recorded events are checked by TLC against the component's module."""
import copy, json, os, random
from concurrent.futures import ThreadPoolExecutor
from lib import build, mpi, tlc
from lib.report import CheckError

class Job:
    """one execution of a driver: lines of a script with 'open'/'close' around pieces of the trace"""
    def __init__(self, run, driver, name, ranks, threads, lines, head=None, chunk=600, per=None, timeout=150, post=None):
        self.run, self.driver, self.name, self.ranks, self.threads = run, driver, name, ranks, threads
        self.head, self.timeout, self.post = head, timeout, post
        self.parts, L = [], []
        # pieces of whole cases: each element of lines is the list of lines of one case
        for k in range(0, max(len(lines), 1), chunk):
            f = '%s/%s_%d.ndjson' % (run.dir, name, k // chunk)
            self.parts.append((f, lines[k:k + chunk]))
            L += ['open ' + f] + [l for c in lines[k:k + chunk] for l in c] + ['close']
        self.script = '%s/%s.script' % (run.dir, name)
        open(self.script, 'w').write('\n'.join(L) + '\n')

    def execute(self):
        return mpi.run(self.driver, [self.script], self.ranks, self.threads, timeout=self.timeout, log=self.script + '.log')

def execute(run, module, jobs, par=3, env=None):
    """-> [(events, path, job)] accepted; violations are reported to run"""
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda j: j.execute(), jobs))
    files = []
    for j, (rc, out) in zip(jobs, res):
        if rc != 0:
            rc, out = j.execute_again() if hasattr(j, 'execute_again') else redo(j)
        if rc != 0:
            run.violation('the program %s on valid input (%s)' % ('does not finish' if rc is None else 'stops with status %d' % rc, j.name),
                          [j.script, j.script + '.log'], out)
            continue
        for f, c in j.parts:
            ev = [json.loads(l) for l in open(f)] if os.path.exists(f) else []
            if not ev:
                if c:
                    raise CheckError('no events in ' + f)
                continue
            if j.post:
                ev = j.post(ev)
            if j.head is not None:
                ev = [j.head] + ev
            if j.post or j.head is not None:
                with open(f, 'w') as o:
                    for e in ev:
                        o.write(json.dumps(e) + '\n')
            files.append((ev, f, j))
    ok = []
    for (ev, f, j), (acc, why, states, out) in zip(files, tlc.traces(module, [f for _, f, _ in files], run.pid, env=env)):
        run.states += states
        run.transitions += states
        n = len(ev) - (j.head is not None)
        run.events += n
        if acc:
            run.traces += 1
            ok.append((ev, f, j))
        else:
            k = states - 1 + (j.head is not None)
            e = ev[k] if 0 <= k < len(ev) else {}
            run.violation('%s, %s event %d: %s' % ('; '.join(why), j.name, states, json.dumps(e)[:300]), [f, j.script], out[-3000:])
        run.notes['driver runs'] = run.notes.get('driver runs', 0)
    run.notes['driver runs'] = run.notes.get('driver runs', 0) + len(jobs)
    for ev, f, j in ok[:3]:
        run.samples.append({'job': j.name, 'ranks': j.ranks, 'threads': j.threads, 'event': json.dumps(ev[-1])[:400]})
    return ok

def redo(j):
    """runs a failed job once more from the start"""
    for f, _ in j.parts:
        if os.path.exists(f):
            os.unlink(f)
    return j.execute()

def bind(run, module, ok, changes, env=None):
    """deliberate changes of accepted traces must be rejected; a change gets an event and returns True if it changed it"""
    jobs = []
    for n, ch in enumerate(changes):
        done = False
        for ev, f, j in ok:
            ev = copy.deepcopy(ev)
            for e in ev:
                if ch(e):
                    done = True
                    break
            if done:
                g = '%s/bind%d.ndjson' % (run.dir, n)
                with open(g, 'w') as o:
                    for e in ev:
                        o.write(json.dumps(e) + '\n')
                jobs.append((ch.__name__ + str(n), g))
                break
        if not done:
            raise CheckError('no event to show that change %d is noticed' % n)
    for (name, f), (acc, why, states, out) in zip(jobs, tlc.traces(module, [f for _, f in jobs], run.pid, env=env)):
        if acc:
            raise CheckError('corrupted trace %s was accepted' % f)
        run.bound.append({'corruption': name, 'rejected_by': why})
        os.unlink(f)

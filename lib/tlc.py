"""Runs TLC: trace checks, schedule generation, exhaustive models."""
import json, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from lib import build
V = build.V
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class TlcError(Exception):
    pass

def run(module, cfg=None, env=None, args=(), timeout=600, heap='3g', workers='1', overrides=True):
    meta = tempfile.mkdtemp(prefix='tlc', dir=build.B)
    cp = (build.java() + ':' if overrides else '') + JARS
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4']
    if overrides:
        cmd += ['-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FltOverrides']
    cmd += ['-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', workers, '-config',
            cfg or '%s/spec/%s.cfg' % (V, module)] + list(args) + ['%s/spec/%s.tla' % (V, module)]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=build.B)
    except subprocess.TimeoutExpired:
        raise TlcError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)

def trace(module, path, prop, env=None):
    """-> (accepted, rejected clauses, number of events accepted, output)"""
    e = {'TRACE': path, 'PROP': prop}
    e.update(env or {})
    rc, out = run(module, env=e)
    states = stats(out)[0]
    if rc == 0 and 'No error has been found' in out:
        return True, [], states, out
    rej = re.findall(r'<<"REJECT", "([^"]+)", "([^"]+)">>', out)
    if 'Deadlock reached' in out:
        return False, ['%s %s' % x for x in dict.fromkeys(rej)] or ['no action of the specification explains the event'], states, out
    if re.search(r'Attempted to|The error occurred when TLC was evaluating|evaluating the nested expressions', out) and 'OutOfMemory' not in out:
        # the event does not have the shape the specification talks about (an index or id that does not exist)
        return False, ['%s %s' % x for x in dict.fromkeys(rej)] or ['event that makes no sense'], states, out
    if rej:     # a clause could not be satisfied and evaluation went no further
        return False, ['%s %s' % x for x in dict.fromkeys(rej)], states, out
    raise TlcError('%s on %s:\n%s' % (module, path, out[-3000:]))

def traces(module, paths, prop, par=6, env=None):
    build.java()
    with ThreadPoolExecutor(par) as ex:
        return list(ex.map(lambda p: trace(module, p, prop, env), paths))

def simulate(module, num, depth, seed, ask=None, tag='SCHEDULE', cfg=None):
    """Behaviours of the specification: the values it prints as <<tag, json>>"""
    env = {}
    if ask is not None:
        f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=build.B, delete=False)
        f.write(json.dumps(ask) + '\n'); f.close()
        env['ASK'] = f.name
    rc, out = run(module, cfg=cfg, env=env, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], overrides=True)
    if ask is not None:
        os.unlink(f.name)
    got = re.findall(r'<<"%s", "(.*)">>' % tag, out)
    if rc != 0 or not got:
        raise TlcError('simulation of %s failed:\n%s' % (module, out[-3000:]))
    return [json.loads(g.replace('\\"', '"').replace('\\\\', '\\')) for g in got]

def model(module, cfg=None, args=(), timeout=840, workers='8', heap='8g', overrides=True):
    """exhaustive check -> (ok, distinct states, transitions, output)"""
    rc, out = run(module, cfg=cfg, args=args, timeout=timeout, workers=workers, heap=heap, overrides=overrides)
    d, g = stats(out)
    if rc == 0 and 'No error has been found' in out:
        return True, d, g, out
    if 'is violated' in out or 'Deadlock reached' in out or 'were violated' in out:
        return False, d, g, out
    raise TlcError('%s:\n%s' % (module, out[-3000:]))

def cases(module, ask, tag='CASE', timeout=300):
    """every instance of the bounded space the generator module describes"""
    f = tempfile.NamedTemporaryFile('w', suffix='.json', dir=build.B, delete=False)
    f.write(json.dumps(ask) + '\n'); f.close()
    rc, out = run(module, env={'ASK': f.name}, timeout=timeout)
    os.unlink(f.name)
    got = re.findall(r'<<"%s", "(.*)">>' % tag, out)
    if rc != 0 or not got:
        raise TlcError('generation of %s failed:\n%s' % (module, out[-3000:]))
    return [json.loads(g.replace('\\"', '"').replace('\\\\', '\\')) for g in got]

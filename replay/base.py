"""Common part of the concrete runs: real code from --root, seeded choices, results as one JSON line."""
import argparse
import json
import os
import random
import signal
import sys
import time
import traceback

parser = argparse.ArgumentParser()
parser.add_argument('--root', default='/repo')
parser.add_argument('--tier', default='quick')
parser.add_argument('--seed', type=int, default=1)
parser.add_argument('--seconds', type=float, default=40)
parser.add_argument('--verbose', action='store_true')
args = parser.parse_args()
sys.dont_write_bytecode = True
sys.path.insert(0, args.root)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

START = time.time()
THOROUGH = args.tier == 'thorough'
RNG = random.Random(args.seed * 7919 + 13)


class Report(object):
    def __init__(self):
        self.cases = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.rule = ''
        self.bound = ''

    def left(self, share=1.0):
        return args.seconds * share - (time.time() - START)

    def case(self, key=None, nontrivial=True):
        """count one evaluated case"""
        self.cases += 1
        if nontrivial:
            h = hash(str(key)) if key is not None else self.cases
            if h not in self.keys:
                self.keys.add(h)
                if len(self.samples) < 5 and key is not None and (self.cases % 7 == 1 or not self.samples):
                    self.samples.append(str(key)[:300].encode('utf8', 'replace').decode('utf8'))

    def fail(self, what, case=None, key=None, **more):
        v = {'what': what, 'case': repr(case)[:2000]}
        if key:
            v['key'] = key
        for k, x in more.items():
            v[k] = repr(x)[:1500]
        if sum(1 for o in self.violations if o.get('key') == key) < 5:
            self.violations.append(v)

    def check(self, ok, what, case=None, **more):
        if not ok:
            self.fail(what, case, **more)
        return ok

    def same(self, got, want, what, case=None, **more):
        self.case((what, repr(case)[:300]))
        if got != want or type(got) is not type(want) and isinstance(want, bool):
            self.fail(what, case, got=got, want=want, **more)
            return False
        return True

    def full(self):
        return len([v for v in self.violations if not v.get('key')]) >= 5

    def guard(self, what, case, fn, *a):
        """call fn; an exception is a failure of the code under test"""
        try:
            return True, fn(*a)
        except Exception as x:
            self.raised(what, case, x)
            return False, None

    def raised(self, what, case, x):
        if layout(x):
            sys.stderr.write('skipped: %s: %r' % (what, x))
            return
        self.fail('%s: unexpected %s: %s' % (what, type(x).__name__, x), case,
                  trace=''.join(traceback.format_exc()[-1500:]))


def layout(x):
    """the harness asked for a name the code no longer has: says nothing about behaviour"""
    frames = traceback.extract_tb(x.__traceback__)
    inside = frames and os.path.abspath(frames[-1].filename).startswith(os.path.abspath(args.root) + os.sep)
    if inside:
        return False
    if isinstance(x, ImportError):
        return True
    return isinstance(x, AttributeError) and 'NoneType' not in str(x)


R = Report()


class Late(BaseException):
    """the harness is over its time: what was covered so far counts"""


class Endless(BaseException):
    """one call of the program has taken more processor time than any case may"""


class Watch(object):
    """looks at the stack every few seconds of processor time"""
    every, patience, slack = 5, 8, 15

    def __init__(self):
        self.call, self.seen = None, 0
        signal.signal(signal.SIGVTALRM, self)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.every, self.every)

    def program_call(self, frame):
        top = os.path.abspath(args.root) + os.sep
        call = None
        while frame is not None:
            if os.path.abspath(frame.f_code.co_filename).startswith(top):
                call = frame
            frame = frame.f_back
        return call

    def __call__(self, signum, frame):
        call = self.program_call(frame)
        if call is not None:
            self.seen = self.seen + 1 if call is self.call else 1
            self.call = call
            if self.seen >= self.patience:
                self.call, self.seen = None, 0
                raise Endless(call.f_code.co_name)
        elif R.left() < -self.slack:
            raise Late()


def main(*parts):
    watch = Watch()
    for part in parts:
        try:
            part()
        except Exception as x:
            R.raised(part.__name__, None, x)
        except Late:
            sys.stderr.write('late: %s\n%s' % (part.__name__, traceback.format_exc()[-1500:]))
        except Endless as x:
            R.fail('%s: a call of %s does not finish: more than %d s of processor time' % (
                part.__name__, x, watch.every * (watch.patience - 1)), trace=traceback.format_exc()[-1500:])
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    print('RESULT ' + json.dumps({
        'cases': R.cases, 'nontrivial': len(R.keys), 'samples': R.samples, 'violations': R.violations,
        'rule': R.rule, 'bound': R.bound}))


def raises(fn, *a, **k):
    """exception type raised by the call, or None"""
    try:
        fn(*a, **k)
    except Exception as x:
        return type(x)
    return None

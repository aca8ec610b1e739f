#!/usr/bin/env python3
"""mkseed.py [id ...]: builds /verif/seeded/<id> from tools/seeds/*.py and confirms each one in a scratch copy of /repo
(compiles, passes the tests of the baseline, demo exits 0 without and nonzero with the change)"""
import sys, os, json, subprocess, shutil, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
S = []
def B(id, prop, edits, needs, breaks, demo, pre=''):
    """edits: list of (file, old, new[, n-th occurrence])"""
    S.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, pre=pre))
for f in sorted(glob.glob(ROOT + '/tools/seeds/*.py')): exec(open(f).read())

DEMO_SH = '''#!/bin/bash
# exits 0 if the property holds for the demonstrated case
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
here="$(cd "$(dirname "$0")" && pwd)"
rustc --edition 2021 -A warnings -C debuginfo=0 -o "$d/demo" "$here/demo.rs" --extern nar20_1=target/debug/libnar20_1.rlib -L dependency=target/debug/deps || exit 1
timeout 200 "$d/demo" "$d" "$PWD/target/debug/main" >"$d/out" 2>&1
rc=$?
tail -n 5 "$d/out"
exit $rc
'''
PRE = '''#![allow(non_snake_case, unused)]
use std::sync::Arc;
use nar20_1::{Nar::*, Term::*, TermApi::*, TermUtils::*, NarSentence::*, NarseseParser::*, NarWorkingCycle::*, NarStamp, NarMem, NarProc, NarGoalSystem, NarInfProcedural, NarUnify, NarInputFacade};
use nar20_1::NarStamp::{Stamp, newStamp};
use nar20_1::Tv::{self, Tv as TV};
fn n(s: &str) -> Term { Term::Name(s.to_string()) }
fn inh(a: Term, b: Term) -> Term { s(Copula::INH, &a, &b) }
fn read(t: &str) -> Term { parseNarsese(&(t.to_string() + ".")).expect("readable").0 }
fn jud(t: &Term, f: f64, c: f64, st: &[i64]) -> Sentence { newEternalSentenceByTv(t, EnumPunctation::JUGEMENT, &TV{f, c}, newStamp(&st.to_vec())) }
fn goal(t: &Term, f: f64, c: f64, st: &[i64]) -> Sentence { newEternalSentenceByTv(t, EnumPunctation::GOAL, &TV{f, c}, newStamp(&st.to_vec())) }
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-6 }
fn evi(t: &Term, pos: i64, cnt: i64, dt: i64, st: &[i64]) -> Sentence { let mut x = jud(t, 1.0, 0.9, st); x.evi = Some(Evidence::CNT{pos, cnt}); x.expDt = Some(dt); x }
fn wait(mut f: impl FnMut() -> bool) -> bool { for _ in 0..1000 { if f() { return true; } std::thread::sleep(std::time::Duration::from_millis(5)); } false }
'''
def run(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ENV = 'export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never; unset CARGO_TARGET_DIR RUSTFLAGS; cd %s; ' % W
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = run(ENV + 'cargo build --offline 2>&1 | tail -30 && cargo test --workspace --offline -- --test-threads 8')
    ok = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('test ') and l.endswith('... ok')]
    return r, ok
def main():
    want = sys.argv[1:]
    run('git -C /repo status --porcelain --untracked-files=no')
    if os.path.exists(W): shutil.rmtree(W)
    run('cp -a /repo %s' % W)
    r, ok0 = tests(); n0 = len(ok0)
    if n0 < 30: print(r.stdout[-3000:]); sys.exit('baseline broken: %d' % n0)
    for b in S:
        if want and b['id'] not in want: continue
        d = '%s/seeded/%s' % (ROOT, b['id'])
        if not want and os.path.exists(d + '/ok'): continue
        os.makedirs(d, exist_ok=True)
        run('git -C %s checkout -- .' % W)
        open(d + '/demo.rs', 'w').write(PRE + b['pre'] + '\nfn main() {\n' + b['demo'] + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        old = {}
        mp = d + '/meta.json'
        if os.path.exists(mp): old = json.load(open(mp))
        m = {'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}
        if 'caught_by' in old: m['caught_by'] = old['caught_by']
        json.dump(m, open(mp, 'w'), indent=1)
        r, _ = tests()
        r0 = run(ENV + 'bash %s/demo.sh' % d)
        if r0.returncode != 0: print(b['id'], 'BAD: demo fails on the unchanged tree\n', r0.stdout[-1500:]); continue
        bad = False
        for e in b['edits']:
            p = W + '/' + e[0]; t = open(p).read()
            k = e[3] if len(e) > 3 else None
            c = t.count(e[1])
            if c == 0 or (k is None and c != 1): print(b['id'], 'BAD edit: %d matches of %r' % (c, e[1])); bad = True; break
            if k is None: t = t.replace(e[1], e[2])
            else:
                parts = t.split(e[1]); t = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
            open(p, 'w').write(t)
        if bad: continue
        open(d + '/patch.diff', 'w').write(run('git -C %s diff' % W).stdout)
        r, ok = tests()
        if len(ok) != n0: print(b['id'], 'BAD: %d tests of %d\n' % (len(ok), n0), r.stdout[-2500:]); continue
        r1 = run(ENV + 'bash %s/demo.sh' % d)
        if r1.returncode == 0 or 'error' in r1.stdout and 'could not compile' in r1.stdout: print(b['id'], 'BAD: demo passes with the change\n', r1.stdout[-800:]); continue
        print(b['id'], 'ok', r1.returncode, r1.stdout.strip().splitlines()[-1:] )
        sys.stdout.flush()
    shutil.rmtree(W)
main()

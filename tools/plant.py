#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turns bug specifications into /verif/seeded/<id>/ after confirming, in a scratch
copy of /repo, that each applies, builds, passes the existing tests and is told apart by its demonstration.
SPEC.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=body of main, profile?)]."""
import json, os, runpy, shutil, subprocess, sys
SC = "/tmp/plant"
ROOT = os.environ.get("SEEDED", "/verif/seeded")
DEMO = '''#!/usr/bin/env bash
# exit 0: the demonstrated property holds; otherwise it is broken
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.demo" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
bsplines = { path = "$repo" }
nalgebra = "=0.32.6"
[workspace]
T
cd "$d" || exit 2
CARGO_TARGET_DIR="${DEMO_TARGET:-$d/target}" timeout 250 cargo run --offline -q @PROFILE@
'''
PRE = '''#![allow(unused, non_snake_case)]
use bsplines::curve::basis::basis;
use bsplines::curve::generation::{generate, Generation};
use bsplines::curve::knots::{self, is_clamped, is_normed, is_sorted, is_uniform, DomainKnotComparatorType as Cmp, Knots};
use bsplines::curve::parameters::{self, Parameters};
use bsplines::curve::points::methods::fit::{self, Penalization};
use bsplines::curve::points::methods::interpolation::interpolate;
use bsplines::curve::points::{ControlPoints, DataPoints, Points};
use bsplines::curve::{Curve, CurveError};
use bsplines::manipulation::insert::{insert, InsertError};
use bsplines::manipulation::merge::{merge, merge_from, merge_to, Constraints, MergeError};
use bsplines::manipulation::reverse::reversed;
use bsplines::manipulation::split::{split, split_and_normalize};
use bsplines::types::{VecD, VecHelpers};
use nalgebra::{dmatrix, dvector, DMatrix, DVector};

fn curve(p: usize, u: &[f64], rows: &[&[f64]]) -> Curve {
    let m = DMatrix::from_fn(rows.len(), rows[0].len(), |r, c| rows[r][c]);
    Curve::new(Knots::new(p, DVector::from_row_slice(u)), ControlPoints::new(m)).unwrap()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs())
}
/// value of the k-th derivative of the curve's own recursion, computed independently by de Boor's recurrence
fn bspl(u: &[f64], i: usize, p: usize, x: f64, end: f64) -> f64 {
    if p == 0 {
        return ((u[i] <= x && x < u[i + 1]) || (x == end && u[i] < end && u[i + 1] == end)) as u8 as f64;
    }
    let f = |a: f64, b: f64| if b == 0.0 { 0.0 } else { a / b };
    f(x - u[i], u[i + p] - u[i]) * bspl(u, i, p - 1, x, end) + f(u[i + p + 1] - x, u[i + p + 1] - u[i + 1]) * bspl(u, i + 1, p - 1, x, end)
}
fn point(c: &Curve, x: f64) -> Vec<f64> {
    let u: Vec<f64> = c.knots.vector().iter().copied().collect();
    let end = u[u.len() - 1];
    let m = c.points.matrix();
    (0..m.nrows()).map(|r| (0..m.ncols()).map(|i| bspl(&u, i, c.degree(), x, end) * m[(r, i)]).sum()).collect()
}

'''
def sh(cmd, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    shutil.rmtree(SC, ignore_errors=True); os.makedirs(SC)
    subprocess.check_call(["cp", "-a", "/repo", SC + "/repo"])
    wt = SC + "/repo"
    base = subprocess.check_output("git rev-list --max-parents=0 HEAD", shell=True, cwd=wt, text=True).split()[0]
    for b in bugs:
        if only and b["id"] not in only: continue
        sh("git checkout -q -- .", wt)
        bad = None
        for f, old, new in b["edits"]:
            p = f"{wt}/{f}"; s = open(p).read()
            if s.count(old) < 1: bad = f"text not found in {f}: {old[:60]!r}"; break
            if s.count(old) > 1 and not b.get("all"): bad = f"text found {s.count(old)} times in {f}: {old[:60]!r}"; break
            open(p, "w").write(s.replace(old, new))
        if bad: print(b["id"], "BAD", bad); continue
        diff = subprocess.check_output("git diff", shell=True, cwd=wt, text=True)
        files = {e[0] for e in b["edits"]}
        orig = set()
        for f in files:
            try: orig |= set(subprocess.check_output(["git", "show", f"{base}:{f}"], cwd=wt, text=True).splitlines())
            except subprocess.CalledProcessError: pass
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        mine = [l for l in removed if l not in orig]
        if removed and len(mine) == len(removed): print(b["id"], "BAD: changes only lines of fix commits"); continue
        if mine: print(b["id"], "note: also changes fixed lines:", mine[:2])
        rc, out = sh("cargo test --workspace --offline 2>&1", wt)
        if rc: print(b["id"], "BAD: tests fail\n", "\n".join(l for l in out.splitlines() if "FAILED" in l or l.startswith("error"))[:800]); continue
        d = f"{SC}/{b['id']}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO.replace("@PROFILE@", "--release" if b.get("release") else ""))
        open(d + "/demo.rs", "w").write(PRE + "fn main() {\n" + b["demo"].strip("\n") + "\n}\n")
        shutil.copy("/verif/harness/Cargo.lock", d + "/Cargo.lock.demo")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        env = {"DEMO_TARGET": "/tmp/plant/target"}
        r1, o1 = sh(f"bash {d}/demo.sh", wt, env)
        sh("git checkout -q -- .", wt)
        r0, o0 = sh(f"bash {d}/demo.sh", wt, env)
        if r0 != 0: print(b["id"], "BAD: demo fails on the unchanged tree\n", o0[-800:]); continue
        if r1 == 0 or "error[" in o1: print(b["id"], "BAD: demo passes with the patch (or does not build)", o1[-500:]); continue
        shutil.rmtree(f"{ROOT}/{b['id']}", ignore_errors=True)
        shutil.copytree(d, f"{ROOT}/{b['id']}")
        print(b["id"], "planted")
main()

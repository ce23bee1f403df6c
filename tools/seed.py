#!/usr/bin/env python3
"""Development helper (not used by any check): plant a bug.

seed.py new FILE.py   FILE.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (rust body of main)
seed.py try ID...     apply, run the stable tests, the demo and the property's check, revert
"""
import json, os, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PRELUDE = r'''#![allow(unused)]
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use web_audio_api::context::*;
use web_audio_api::node::*;
use web_audio_api::worklet::*;
use web_audio_api::*;

const SR: f32 = 32768.;

fn ctx(channels: usize, frames: usize) -> OfflineAudioContext {
    OfflineAudioContext::new(channels, frames, SR)
}

fn done(mut c: OfflineAudioContext) -> Vec<Vec<f32>> {
    let b = c.start_rendering_sync();
    (0..b.number_of_channels()).map(|i| b.get_channel_data(i).to_vec()).collect()
}

/// plays the given channels from the start
fn play(c: &impl BaseAudioContext, x: &[Vec<f32>]) -> AudioBufferSourceNode {
    let mut s = c.create_buffer_source();
    s.set_buffer(AudioBuffer::from(x.to_vec(), SR));
    s.start();
    s
}

fn noise(n: usize, seed: u32) -> Vec<f32> {
    let mut s = seed.wrapping_mul(747796405).wrapping_add(2891336453);
    (0..n)
        .map(|_| {
            s = s.wrapping_mul(1664525).wrapping_add(1013904223);
            ((s >> 8) as f32 / 8388608.) - 1.
        })
        .collect()
}

fn same(what: &str, got: &[f32], want: &[f32], tol: f32) {
    assert_eq!(got.len(), want.len(), "{what}");
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        assert!((g - w).abs() <= tol, "{what}: frame {i}: {g} instead of {w}");
    }
}

'''
DEMO_SH = r'''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
LIB=$(ls -t /repo/target/debug/deps/libweb_audio_api-*.rlib | head -1)
rustc --edition 2021 -A warnings -L dependency=/repo/target/debug/deps --extern web_audio_api="$LIB" -o "$T/demo" "$D/demo.rs" || { rmdir "$T"; exit 3; }
timeout 250 "$T/demo"
R=$?
rm -f "$T/demo"
rmdir "$T"
exit $R
'''

# for what the public API does not reach: ENTRY is appended to a copy of ENTRY_FILE
ENTRY_SH = r'''#!/bin/bash
# drives the render thread like an audio device would: a copy of the sources with an entry point
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
cp -r /repo/src /repo/README.md "$T" && mkdir "$T/resources" && cp /repo/resources/*.bin "$T/resources" || exit 3
cat "$D/entry.rs" >> "$T/src/ENTRY_FILE"
DEPS=/repo/target/debug/deps
EXT=""
for n in almost arc_swap arrayvec fft_convolver creek crossbeam_channel dasp_sample float_eq futures_channel futures_core futures_util hound hrtf llq log num_complex realfft rubato smallvec symphonia vecmath no_denormals; do
  f=$(ls -t $DEPS/lib$n-*.rlib 2>/dev/null | head -1)
  EXT="$EXT --extern $n=$f"
done
rustc --edition 2021 -A warnings --crate-type rlib --crate-name web_audio_api -L dependency=$DEPS $EXT -o "$T/libweb_audio_api.rlib" "$T/src/lib.rs" &&
rustc --edition 2021 -A warnings -L dependency=$DEPS --extern web_audio_api="$T/libweb_audio_api.rlib" -o "$T/demo" "$D/demo.rs" || { rm -rf "$T"; exit 3; }
timeout 200 "$T/demo"
R=$?
rm -rf "$T"
exit $R
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"


def new(path):
    for block in open(path).read().split("#====\n"):
        if not block.strip():
            continue
        ns = {}
        exec(block, ns)
        clean()
        ok = True
        for f, old, new_ in ns["EDITS"]:
            p = os.path.join("/repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns["ID"], "edit matches", s.count(old), repr(old[:80]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new_))
        diff = sh("git -C /repo diff").stdout
        sh("git -C /repo checkout -- .")
        if not ok:
            continue
        d = os.path.join(SEEDED, ns["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.rs"), "w").write(PRELUDE + ns["DEMO"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(ENTRY_SH.replace("ENTRY_FILE", ns["ENTRY_FILE"]) if "ENTRY" in ns else DEMO_SH)
        if "ENTRY" in ns:
            open(os.path.join(d, "entry.rs"), "w").write(ns["ENTRY"])
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def demo(i):
    return sh("cd /repo && bash %s/demo.sh" % os.path.join(SEEDED, i), timeout=400)


def trial(ids):
    clean()
    if "--fast" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        for i in ids:
            r = demo(i)
            if r.returncode != 0:
                print("%s: DEMO FAILS ON CLEAN TREE rc=%d\n%s" % (i, r.returncode, r.stdout[-1500:]))
    for i in ids:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        a = sh("git -C /repo apply %s/patch.diff" % os.path.join(SEEDED, i))
        if a.returncode:
            print(i, "patch does not apply", a.stdout)
            continue
        try:
            msg = ""
            if "--fast" not in sys.argv:
                t = sh("bash %s/tools/tests.sh" % VERIF).stdout.strip().splitlines()[-1]
                r = demo(i)
                msg = "tests: %s; demo rc=%d %s" % (t, r.returncode, [l for l in r.stdout.splitlines() if "frame" in l or "panicked" in l or "assert" in l or "error" in l][:2])
            c = sh("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s" % (VERIF, meta["property"]))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("#")]
            print("%s [%s] %s\n   check rc=%d %s" % (i, meta["property"], msg, c.returncode, v[:4] or c.stdout[-300:]), flush=True)
        finally:
            sh("git -C /repo checkout -- .")


if sys.argv[1] == "new":
    new(sys.argv[2])
else:
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    trial(ids)

#!/usr/bin/env python3
"""Builds the simulator and the instrumented code under test with ninja.

  build.py [target ...]     default: all driver executables
Everything is written to $SIM_BUILD (default /verif/build), which git ignores;
/repo is only read ($SIM_REPO overrides its location for experiments).
"""
import os, sys, glob, subprocess, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))

# alternatives the project's own build selects by option; not part of this configuration
EXCLUDE = ("_windows.cpp", "/no_stream_recorder.cpp", "/no_dns_resolver.cpp", "/grpc_transporter.cpp")


def version_h():
    out = os.path.join(BUILD, "gen/include/lightstep/version.h")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    text = '#pragma once\n#define LIGHTSTEP_VERSION "0.14.0"\n'
    if not os.path.exists(out) or open(out).read() != text:
        open(out, "w").write(text)


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate():
    os.makedirs(BUILD, exist_ok=True)
    version_h()
    gen = BUILD + "/gen"
    ltc = REPO + "/lightstep-tracer-common"
    inc = " ".join("-I" + d for d in (
        gen + "/include", REPO + "/include", REPO + "/src"))
    sysinc = " ".join("-isystem " + d for d in (
        gen + "/pb", gen + "/pb/lightstep-tracer-common", gen + "/pb/lightstep-tracer-configuration",
        REPO + "/3rd_party/base64/include", VERIF + "/shim/opentracing/include"))
    tsan = "-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"
    n = []
    w = n.append
    w("cxx = clang++")
    w("rtcxx = g++")
    w(f"inc = {inc} {sysinc}")
    w(f"flags = -O1 -gline-tables-only -fno-omit-frame-pointer -pthread -fno-pie -w {tsan}")
    w("rule repo\n  command = $cxx -std=gnu++11 $flags $inc -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w(f"rule scen\n  command = $cxx -std=gnu++17 $flags $inc -I{VERIF}/sim -I{REPO} -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule rt\n  command = $rtcxx -std=c++17 -O2 -g1 -fPIC -fno-threadsafe-statics -fvisibility=hidden -Wall -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    w("rule rtso\n  command = $rtcxx -shared -Wl,-Bsymbolic -o $out $in -ldl -lpthread")
    w("rule ar\n  command = rm -f $out && ar rcs $out $in")
    w(f"rule link\n  command = $cxx -no-pie -o $out $objs {BUILD}/libsimrt.so $libs -Wl,-rpath,{BUILD} "
      "-lprotobuf -levent_core -lcares -lpthread -ldl")
    w(f"rule protoc\n  command = mkdir -p $dir && protoc --proto_path=$root --proto_path={ltc}/third_party/protobuf "
      f"--proto_path={ltc}/third_party/googleapis --cpp_out=$dir $in")
    # runtime
    rto = []
    for f in sorted(glob.glob(VERIF + "/sim/rt/*.cpp")):
        o = f"{BUILD}/rt/{os.path.basename(f)}.o"
        w(f"build {esc(o)}: rt {esc(f)}")
        rto.append(o)
    w(f"build {BUILD}/libsimrt.so: rtso {' '.join(map(esc, rto))}")
    # protobuf
    pbs = [(ltc + "/third_party/googleapis", "lightstep-tracer-common/", "google/api/http.proto"),
           (ltc + "/third_party/googleapis", "lightstep-tracer-common/", "google/api/annotations.proto"),
           (ltc, "lightstep-tracer-common/", "collector.proto"),
           (ltc, "lightstep-tracer-common/", "lightstep_carrier.proto"),
           (REPO + "/lightstep-tracer-configuration", "lightstep-tracer-configuration/", "tracer_configuration.proto")]
    hdrs, pbo = [], []
    for root, prefix, f in pbs:
        base = f"{gen}/pb/{prefix}{f[:-6]}"
        w(f"build {base}.pb.cc {base}.pb.h: protoc {root}/{f}\n  root = {root}\n  dir = {gen}/pb/{prefix}")
        hdrs.append(base + ".pb.h")
        o = f"{BUILD}/pb/{f.replace('/', '_')}.o"
        pbo.append((o, base + ".pb.cc"))
    w(f"build {BUILD}/pbhdrs: phony {' '.join(hdrs)}")
    objs = []
    for o, s in pbo:
        w(f"build {o}: repo {s} || {BUILD}/pbhdrs")
        objs.append(o)
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    srcs = [s for s in srcs if not any(s.endswith(e) for e in EXCLUDE)]
    srcs += sorted(glob.glob(REPO + "/3rd_party/base64/src/*.cpp"))
    srcs += [VERIF + "/shim/opentracing/src/opentracing.cpp"]
    for s in srcs:
        rel = os.path.relpath(s, REPO if s.startswith(REPO + "/") else VERIF).replace("/", "_")
        o = f"{BUILD}/obj/{rel}.o"
        w(f"build {esc(o)}: repo {esc(s)} || {BUILD}/pbhdrs")
        objs.append(o)
    w(f"build {BUILD}/libutt.a: ar {' '.join(map(esc, objs))}")
    # drivers: one executable per directory of scenarios
    exes = []
    for d in sorted(glob.glob(VERIF + "/sim/scenarios/*/")):
        name = os.path.basename(d.rstrip("/"))
        so = []
        for f in sorted(glob.glob(d + "*.cpp")):
            o = f"{BUILD}/scen/{name}_{os.path.basename(f)}.o"
            w(f"build {o}: scen {f} || {BUILD}/pbhdrs")
            so.append(o)
        exe = f"{BUILD}/sim_{name}"
        w(f"build {exe}: link {' '.join(so)} | {BUILD}/libsimrt.so {BUILD}/libutt.a\n  objs = {' '.join(so)}\n  libs = {BUILD}/libutt.a")
        w(f"build {name}: phony {exe}")
        exes.append(exe)
    w(f"build all: phony {' '.join(exes)}")
    w("default all")
    text = "\n".join(n) + "\n"
    path = BUILD + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def build(targets=(), quiet=False):
    generate()
    cmd = ["ninja", "-C", BUILD] + list(targets)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not quiet:
        sys.stdout.write(r.stdout[-6000:])
        sys.stdout.flush()
    return r.returncode == 0


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:]) else 2)

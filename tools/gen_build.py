#!/usr/bin/env python3
"""Generates build.ninja that compiles /repo's current sources (instrumented) plus the simulator and harnesses.

usage: gen_build.py REPO OUT VARIANT
Everything below /repo is taken from the working tree (sources by globbing, configuration headers from the
repository's own *.in templates); nothing of /repo/_build is used.
"""
import os, re, sys, hashlib, glob

REPO, OUT = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNITY = os.environ.get("IOXSIM_UNITY", "1") == "1"

# ---------------------------------------------------------------------------------------------- configuration
# small limits so that a simulated system is cheap to set up and capacity limits are within reach
POSH_OVERRIDES = {
    "IOX_MAX_PUBLISHERS": "24", "IOX_MAX_SUBSCRIBERS": "24", "IOX_MAX_INTERFACE_NUMBER": "4",
    "IOX_MAX_SUBSCRIBERS_PER_PUBLISHER": "8", "IOX_MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY": "4",
    "IOX_MAX_PUBLISHER_HISTORY": "4", "IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY": "32",
    "IOX_MAX_PROCESS_NUMBER": "10", "IOX_MAX_NODE_NUMBER": "10", "IOX_MAX_NODE_PER_PROCESS": "1",
    "IOX_MAX_SHM_SEGMENTS": "4", "IOX_MAX_NUMBER_OF_MEMPOOLS": "8",
    "IOX_MAX_NUMBER_OF_CONDITION_VARIABLES": "8", "IOX_MAX_NUMBER_OF_NOTIFIERS": "8",
    "IOX_MAX_CLIENTS": "24", "IOX_MAX_SERVERS": "16", "IOX_MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY": "4",
    "IOX_MAX_RESPONSE_QUEUE_CAPACITY": "4", "IOX_MAX_REQUEST_QUEUE_CAPACITY": "8",
    "IOX_MAX_CLIENTS_PER_SERVER": "24", "IOX_MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY": "4",
}
COMMON = {
    "IOX_COMMUNICATION_POLICY": "ManyToManyPolicy", "IOX_INTERPROCESS_LOCK": "mutex",
    "IOX_INTERPROCESS_SEMAPHORE": "UnnamedSemaphore", "IOX_EXPERIMENTAL_POSH_FLAG": "true",
    "IOX_ROUDI_DEFAULT_MONITORING_MODE_ON": "true", "IOX_DEFAULT_RESOURCE_PREFIX": "iox1",
    "IOX_MAX_NODE_NAME_LENGTH": "87", "IOX_MAX_RUNTIME_NAME_LENGTH": "87",
    "IOX_CFG_FEATURE_ACL": "0", "IOX_FEATURE_ACL": "0",
    "IOX_PLATFORM_UDS_SOCKET_PATH_PREFIX": "/tmp/", "IOX_PLATFORM_LOCK_FILE_PATH_PREFIX": "/tmp/",
    "IOX_PLATFORM_TEMP_DIR": "/tmp/", "IOX_PLATFORM_DEFAULT_CONFIG_LOCATION": "/etc/",
    "IOX_HOOFS_SUBSET": "0",
}

def cmake_defaults(path):
    d = {}
    try:
        txt = open(path).read()
    except OSError:
        return d
    for m in re.finditer(r'configure_option\(\s*NAME\s+(\w+)\s+DEFAULT_VALUE\s+("?)([^"\s)]*)\2', txt):
        d[m.group(1)] = m.group(3)
    return d

def substitute(tmpl, dst, values):
    txt = open(tmpl).read()
    def rep(m):
        k = m.group(1)
        if k in values and "$" not in values[k]:
            return values[k]
        return COMMON.get(k, "0")
    txt = re.sub(r'@(\w+)@', rep, txt)
    txt = re.sub(r'\$\{(\w+)\}', rep, txt)
    write(dst, txt)

def write(path, txt):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == txt:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(txt)

G = OUT + "/gen/include"
defs = dict(COMMON)
for f in glob.glob(REPO + "/iceoryx_*/cmake/*Deployment.cmake") + glob.glob(REPO + "/iceoryx_platform/**/cmake/*.cmake", recursive=True):
    for k, v in cmake_defaults(f).items():
        if "$" not in v and k not in COMMON:
            defs.setdefault(k, v)
defs.update(POSH_OVERRIDES)
ver = open(REPO + "/VERSION").read().strip().split(".")
defs.update({"IOX_VERSION_STRING": ".".join(ver), "IOX_VERSION_MAJOR": ver[0], "IOX_VERSION_MINOR": ver[1],
             "IOX_VERSION_PATCH": re.sub(r"\D.*", "", ver[2]) if len(ver) > 2 else "0", "IOX_VERSION_TWEAK": "0",
             "ICEORYX_VERSION_STRING": ".".join(ver), "ICEORYX_BUILDDATE": "2026-01-01T00:00:00Z", "ICEORYX_SHA1": "simulated"})
defs["CMAKE_PROJECT_VERSION_MAJOR"], defs["CMAKE_PROJECT_VERSION_MINOR"] = ver[0], ver[1]
substitute(REPO + "/iceoryx_posh/cmake/iceoryx_posh_deployment.hpp.in", G + "/iceoryx_posh/iceoryx_posh_deployment.hpp", defs)
substitute(REPO + "/iceoryx_hoofs/cmake/iceoryx_hoofs_deployment.hpp.in", G + "/iox/iceoryx_hoofs_deployment.hpp", defs)
substitute(REPO + "/iceoryx_platform/linux/cmake/platform_settings.hpp.in", G + "/iceoryx_platform/platform_settings.hpp", defs)
substitute(REPO + "/iceoryx_platform/cmake/iceoryx_versions.h.in", G + "/iceoryx_versions.h", defs)

# ---------------------------------------------------------------------------------------------- include dirs
inc = [G]
for pat in ("iceoryx_hoofs/*/include", "iceoryx_hoofs/*/*/include", "iceoryx_platform/linux/include", "iceoryx_platform/generic/include",
            "iceoryx_posh/include", "iceoryx_posh/experimental/include", "iceoryx_binding_c/include"):
    for d in sorted(glob.glob(REPO + "/" + pat)):
        if "/test" in d or "/testing" in d or "/legacy/" in d and "/test" in d:
            continue
        inc.append(d)

# ---------------------------------------------------------------------------------------------- sources
def find(root, excl=()):
    r = []
    for dp, dn, fn in os.walk(REPO + "/" + root):
        if re.search(r"/(test|testing|tests)(/|$)", dp):
            continue
        for f in sorted(fn):
            p = os.path.join(dp, f)
            if f.endswith(".cpp") and "/source/" in p and not any(e in p for e in excl):
                r.append(p)
    return sorted(r)

EXCL = ("roudi_main.cpp", "toml", "gateway_config", "acl_feature_on")
src_hoofs = find("iceoryx_platform/linux", EXCL) + find("iceoryx_platform/generic", EXCL) + find("iceoryx_hoofs", EXCL)
src_posh = find("iceoryx_posh/source", EXCL + ("/roudi/",)) + find("iceoryx_posh/experimental", EXCL)
src_roudi = find("iceoryx_posh/source/roudi", EXCL)
src_c = find("iceoryx_binding_c/source", EXCL)

CXX = "clang++"
base = "-std=c++17 -fPIC -pthread -g0 -Wno-everything -DIOXSIM=1 " + " ".join("-I" + i for i in inc)
instr = base + " -O1 -fno-omit-frame-pointer -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 -fno-math-errno"
simfl = "-std=c++17 -fPIC -O2 -fno-omit-frame-pointer -fno-threadsafe-statics -g1 -Wall -Wno-unused-function -pthread -I%s/sim -I%s/harness" % (VERIF, VERIF)

rules = """
ninja_required_version = 1.5
rule cxx
  command = %s $flags -MD -MF $out.d -c $in -o $out
  depfile = $out.d
  deps = gcc
  description = CXX $out
rule so
  command = %s -shared -nostdlib++ -o $out -Wl,--no-undefined-version -Wl,-Bsymbolic $in $libs
  description = SO $out
rule exe
  command = %s -rdynamic -o $out $in $libs
  description = EXE $out
""" % (CXX, CXX, CXX)
lines = [rules]

def cxx(src, flags, tag):
    o = "obj/%s_%s.o" % (tag, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))[-120:])
    lines.append("build %s: cxx %s\n  flags = %s\n" % (o, src, flags))
    return o

def unity(srcs, name, n, flags):
    if not UNITY:
        return [cxx(s, flags, name) for s in srcs]
    # balance by size, keep deterministic
    sized = sorted(srcs, key=lambda s: (-os.path.getsize(s), s))
    buckets = [[0, []] for _ in range(n)]
    for s in sized:
        b = min(buckets, key=lambda b: b[0])
        b[0] += os.path.getsize(s) + 2000
        b[1].append(s)
    objs = []
    for i, b in enumerate(buckets):
        if not b[1]:
            continue
        u = "%s/unity/%s_%d.cpp" % (OUT, name, i)
        write(u, "".join('#include "%s"\n' % s for s in sorted(b[1])))
        objs.append(cxx(u, flags, name))
    return objs

o_hoofs = unity(src_hoofs, "hoofs", 4, instr)
o_posh = unity(src_posh, "posh", 5, instr)
o_roudi = unity(src_roudi, "roudi", 5, instr)
o_c = unity(src_c, "bindc", 1, instr)

o_sim = [cxx(s, simfl, "sim") for s in sorted(glob.glob(VERIF + "/sim/*.cpp"))]
lines.append("build ioxsim: exe %s\n  libs = -ldl -lpthread\n" % " ".join(o_sim))

targets = ["ioxsim"]
groups = {}
for h in sorted(glob.glob(VERIF + "/harness/*.cpp")):
    name = os.path.basename(h)[:-4]
    groups.setdefault("sys" if name.startswith("sys_") else name, []).append(h)
for name, hs in sorted(groups.items()):
    o = [cxx(h, instr + " -I%s/sim -I%s/harness" % (VERIF, VERIF), "h") for h in hs]
    if name.startswith("comp_"):
        deps = o_hoofs + (o_posh if name.startswith("comp_posh") else [])
    else:
        deps = o_hoofs + o_posh + o_roudi + o_c
    lines.append("build %s.so: so %s\n  libs =\n" % (name, " ".join(o + deps)))
    targets.append(name + ".so")
lines.append("build all: phony %s\ndefault all\n" % " ".join(targets))
lines.append("build repo: phony %s\n" % " ".join(o_hoofs + o_posh + o_roudi + o_c))
write(OUT + "/build.ninja", "\n".join(lines))

#!/usr/bin/env python3
"""Builds simulation binaries from /repo's current sources.  build.py TARGET...  (engine, or a component target)
Output: $SIM_BUILD (default /verif/build)/<target>. Everything incremental through ninja."""
import os, re, subprocess, sys

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
BASE = ["-std=c++20", os.environ.get("SIM_G", "-g0"), "-w", "-fno-omit-frame-pointer", "-ffunction-sections", "-DARCUS", "-DNDEBUG",
        '-DCURA_ENGINE_VERSION=\\"5.14.0\\"', '-DCURA_ENGINE_HASH=\\"unknown\\"', "-D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1",
        '-DSENTRY_ENVIRONMENT=\\"\\"', "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB",
        "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED", "-DCURA_SIM"]
BASE += ["-include", f"{SIM}/stubs/pstl/parallel_backend.h"]  # before <execution>, which looks beside itself first
INC = [f"-I{SIM}/stubs", "-Igen", f"-I{REPO}/include", f"-I{SIM}", "-I/usr/include/stb"]
INSTR = ["-O1", "-fsanitize=thread"]
COV = os.environ.get("SIM_COV")  # a development aid: which lines the runs of a check reach (tools/cov.py)
if COV:
    INSTR.append("-fsanitize-coverage=trace-pc,no-prune")
LIBS = "-lspdlog -lfmt -lpolyclipping -lpng -lprotobuf -lz -lpthread -ldl"
RT = ["rt/sched.cpp", "rt/alloc.cpp", "rt/tsan.cpp", "rt/io.cpp", "rt/driver.cpp"]
if COV:
    RT.append("rt/cov.cpp")
# slow translation units first
SLOW = ["LayerPlan", "FffGcodeWriter", "TreeSupport", "MeshMaterialSplitter", "support", "FffPolygonGenerator", "TreeModelVolumes"]
ENGINE_WL = ["wl/slice.cpp", "wl/resolve.cpp"]
# component binaries: workloads and the sources of the engine they need, compiled alone. What such a workload never
# calls may stay unresolved (calling it would end the run as a crash).
# an entry that ends in / stands for all sources below that directory
GEOMETRY = ["src/geometry/"]
COMPONENTS = {
    "model": (["wl/model.cpp"], ["src/MeshGroup.cpp", "src/mesh.cpp", "src/utils/MeshUtils.cpp", "src/TextureDataProvider.cpp", "src/infill/ImageBasedDensityProvider.cpp", "src/settings/Settings.cpp", "src/utils/Matrix4x3D.cpp", "src/utils/AABB.cpp", "src/utils/AABB3D.cpp", "src/utils/gettime.cpp", "src/SlicedUVCoordinates.cpp"] + GEOMETRY),
    "progress": (["wl/progress.cpp"], ["src/progress/Progress.cpp", "src/progress/ProgressStageEstimator.cpp", "src/progress/ProgressEstimatorLinear.cpp", "src/utils/gettime.cpp", "src/utils/ThreadPool.cpp", "src/Application.cpp"]),
    "volumes": (["wl/volumes.cpp"], ["src/TreeModelVolumes.cpp", "src/TopSurface.cpp", "src/SupportInfillPart.cpp", "src/infill/SierpinskiFillProvider.cpp", "src/infill/SierpinskiFill.cpp", "src/sliceDataStorage.cpp", "src/mesh.cpp", "src/MeshGroup.cpp", "src/Slice.cpp", "src/Scene.cpp", "src/ExtruderTrain.cpp", "src/raft.cpp", "src/PrintInformation.cpp", "src/RetractionConfig.cpp", "src/GCodePathConfig.cpp", "src/settings/", "src/utils/", "src/progress/", "src/Application.cpp", "src/PrimeTower/"] + GEOMETRY),
    "voxels": (["wl/voxels.cpp"], ["src/utils/VoxelGrid.cpp", "src/utils/SpatialLookup.cpp", "src/utils/PlanarPolygon3LL.cpp", "src/utils/Segment3LL.cpp", "src/utils/AABB3D.cpp", "src/utils/AABB.cpp", "src/utils/MeshUtils.cpp", "src/utils/ThreadPool.cpp", "src/Application.cpp"] + GEOMETRY),
    "pool": (["wl/pool.cpp"], ["src/utils/ThreadPool.cpp", "src/Application.cpp"]),
}


def engine_sources():
    t = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"set\(engine_SRCS((?:.|\n)*?)\n\)", t)
    srcs = re.findall(r"src/[A-Za-z0-9_/.]+\.(?:cpp|c|cc)", m.group(1))
    return [s for s in srcs if os.path.exists(f"{REPO}/{s}")]


def generate():
    os.makedirs(BUILD, exist_ok=True)
    n = []
    n.append("cxx = clang++")
    n.append("base = " + " ".join(BASE + INC))
    n.append("instr = " + " ".join(INSTR))
    n.append("rule pch\n command = $cxx $base $instr -x c++-header -fpch-instantiate-templates $in -o $out")
    n.append("rule cc\n command = $cxx $base $instr $x -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append("rule rt\n command = $cxx -std=c++20 -O2 -g0 -Wall -fno-builtin -fno-stack-protector -fno-exceptions -fcf-protection=none -U_FORTIFY_SOURCE -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc")
    n.append(f"rule link\n command = $cxx -no-pie -rdynamic -Wl,--gc-sections $in {LIBS} -o $out")
    n.append(f"rule linkc\n command = $cxx -no-pie -rdynamic -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all $in {LIBS} -o $out")
    n.append(f"rule proto\n command = protoc --proto_path={REPO} --cpp_out=gen {REPO}/Cura.proto")
    n.append(f"build gen/Cura.pb.cc gen/Cura.pb.h: proto {REPO}/Cura.proto")
    n.append(f"build pch.pch: pch {SIM}/pch.h")
    obj = {}

    def cc(path, pch=True, extra=""):
        if path in obj:
            return obj[path]
        o = "o/" + path.strip("/").replace("/", "_") + ".o"
        x = extra + (" -include-pch pch.pch" if pch else "")
        n.append(f"build {o}: cc {path}" + (" | pch.pch || gen/Cura.pb.h" if pch else " || gen/Cura.pb.h") + f"\n x = {x}")
        obj[path] = o
        return o

    def rt(path):
        if path in obj:
            return obj[path]
        o = "o/" + os.path.basename(path) + ".o"
        n.append(f"build {o}: rt {path}")
        obj[path] = o
        return o

    rts = [rt(f"{SIM}/{r}") for r in RT]
    srcs = engine_sources()
    srcs.sort(key=lambda s: next((i for i, k in enumerate(SLOW) if os.path.basename(s) == k + ".cpp"), 99))
    objs = [cc(f"{REPO}/{s}") for s in srcs]
    objs.append(cc(f"{REPO}/src/main.cpp", extra="-Dmain=cura_main"))
    objs.append(cc("gen/Cura.pb.cc", pch=False))
    objs.append(cc(f"{SIM}/stubs/formulae.cpp"))
    objs.append(cc(f"{SIM}/rt/arcus.cpp", pch=False))
    objs += [cc(f"{SIM}/{w}", pch=False) for w in ENGINE_WL]
    n.append("build engine: link " + " ".join(objs + rts))
    for name, (wl, comp) in COMPONENTS.items():
        comp = [x for c in comp for x in (sorted(os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(f"{REPO}/{c}") for f in fs if f.endswith(".cpp")) if c.endswith("/") else [c] if c.startswith("/") or os.path.exists(f"{REPO}/{c}") else [])]
        os_ = [cc(f"{SIM}/{w}") for w in wl] + [cc(c if c.startswith("/") else f"{REPO}/{c}") for c in comp]
        n.append(f"build {name}: linkc " + " ".join(os_ + rts))
    text = "\n".join(n) + "\n"
    f = f"{BUILD}/build.ninja"
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)


def build(targets, quiet=True):
    generate()
    r = subprocess.run(["ninja", "-C", BUILD] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        return False
    return True


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or ["engine"]) else 3)

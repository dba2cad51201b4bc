"""What each property's check builds and how much it explores."""

COMMON = ["-std=c++20", "-DSIMU_OS_LINUX", "-fno-strict-aliasing", "-w"]

FLAVORS = {
    # memory errors are caught at once: nothing freed is ever reused, pools have one object per block
    "A": dict(flags=["-O1", "-fsanitize=address", "-DSIMU_DST_BLOCK_SIZE=1"]),
    # as shipped
    "B": dict(flags=["-O2"]),
    # perturbed code generation, only used to look for checks that are too tight
    "X": dict(flags=["-O3", "-march=native", "-ffp-contract=fast"]),
    "Z": dict(flags=["-O0"]),
}

ENGINE = ["src/Simu/math/BarycentricCoordinates.cpp", "src/Simu/math/Geometry.cpp", "src/Simu/math/Random.cpp",
          "src/Simu/physics/Body.cpp", "src/Simu/physics/BoundingBox.cpp", "src/Simu/physics/World.cpp"]

WSIM = ["core.cpp", "wsim.cpp", "wsim_types.cpp", "wsim_make.cpp", "wsim_oracle.cpp", "con_a.cpp", "con_b.cpp", "con_c.cpp", "con_d.cpp"]


def wset(*extra):
    return dict(sim=WSIM + list(extra), repo=ENGINE, include=["@REPO/include", "@SIM"])


SETS = {
    "life": wset("props_life.cpp"),
    "phys": wset("props_phys.cpp"),
    "motion": wset("props_motion.cpp"),
    "fault": wset("props_fault.cpp"),
    "run": wset("props_run.cpp"),
    "joint": wset("props_joint.cpp"),
    "rest": wset("props_rest.cpp"),
    "mem": dict(sim=["core.cpp", "props_mem.cpp"], repo=["src/Simu/physics/BoundingBox.cpp", "src/Simu/math/Geometry.cpp"], include=["@REPO/include", "@SIM"]),
    "app": dict(sim=["core.cpp", "../simapp/appsim.cpp", "../simapp/props_app.cpp"],
                repo=ENGINE + ["src/Simu/app/%s.cpp" % n for n in ("Application", "Camera", "Renderer", "Scene", "Tool")],
                include=["@SIM/../simapp/stub", "@SIM/../simapp", "@REPO/include", "@SIM"]),
    "demo": dict(sim=["core.cpp", "../simapp/appsim.cpp", "../simapp/props_demo.cpp"],
                 repo=ENGINE + ["src/Simu/app/%s.cpp" % n for n in ("Application", "Camera", "Renderer", "Scene", "Tool")]
                      + ["demos/%s.cpp" % n for n in ("BoxStacks", "NewtonPendulum", "Pyramid", "Tower", "Tumbler")],
                 include=["@SIM/../simapp/stub", "@SIM/../simapp", "@REPO/include", "@REPO/demos", "@SIM"]),
}


def part(set_, flavor, qseeds, qwall, tseeds, twall, **kw):
    d = dict(set=set_, flavor=flavor, quick=dict(seeds=qseeds, wall=qwall), thorough=dict(seeds=tseeds, wall=twall))
    d.update(kw)
    return d


PROPS = {
    "C01": dict(parts=[part("life", "A", 20000, 25, 3000000, 1500)]),
    "C02": dict(parts=[part("life", "A", 20000, 25, 3000000, 1500)]),
    "C03": dict(parts=[part("life", "A", 20000, 20, 3000000, 1000), part("life", "B", 60000, 10, 6000000, 500)]),
    "C04": dict(parts=[part("life", "A", 20000, 25, 3000000, 1500)]),
    "C05": dict(parts=[part("phys", "B", 40000, 25, 6000000, 1500)]),
    "C06": dict(parts=[part("phys", "B", 40000, 25, 6000000, 1500)]),
    "C07": dict(parts=[part("phys", "B", 40000, 25, 6000000, 1500)]),
    "C08": dict(parts=[part("joint", "B", 12000, 25, 3000000, 1500)]),
    "C09": dict(parts=[part("rest", "B", 16000, 25, 3000000, 1500)]),
    "C10": dict(parts=[part("rest", "B", 150000, 28, 6000000, 1500)]),
    "C11": dict(parts=[part("motion", "B", 40000, 25, 6000000, 1500)]),
    "C12": dict(parts=[part("motion", "B", 40000, 25, 6000000, 1200), part("motion", "A", 3000, 20, 500000, 600)]),
    "C13": dict(parts=[part("motion", "B", 40000, 25, 6000000, 1500)]),
    "C14": dict(parts=[part("motion", "B", 40000, 25, 6000000, 1500)]),
    "C16": dict(parts=[part("fault", "A", 8000, 25, 1500000, 1500)]),
    "C17": dict(parts=[part("fault", "A", 20000, 25, 3000000, 1500)]),
    "C18": dict(parts=[part("fault", "A", 8000, 14, 1500000, 750), part("fault", "B", 16000, 14, 3000000, 750)]),
    "C19": dict(parts=[part("mem", "A", 40000, 14, 3000000, 750), part("mem", "B", 80000, 14, 6000000, 750)]),
    "C20": dict(parts=[part("mem", "A", 40000, 14, 3000000, 750), part("mem", "B", 80000, 14, 6000000, 750)]),
    "C21": dict(parts=[part("run", "B", 40000, 25, 6000000, 1500)]),
    "C22": dict(parts=[part("run", "A", 8000, 14, 1500000, 750), part("run", "B", 16000, 14, 3000000, 750)]),
    "C28": dict(parts=[part("run", "B", 40000, 25, 6000000, 1500)]),
    "C23": dict(parts=[part("app", "B", 20000, 25, 3000000, 1500)]),
    "C24": dict(parts=[part("app", "A", 20000, 25, 3000000, 1500)]),
    "C25": dict(parts=[part("app", "B", 20000, 25, 3000000, 1500)]),
    "C26": dict(parts=[part("app", "B", 20000, 25, 3000000, 1500)]),
    "C27": dict(parts=[part("app", "B", 20000, 25, 3000000, 1500)]),
    "C29": dict(parts=[part("app", "B", 20000, 25, 3000000, 1500)]),
    "C32": dict(parts=[part("demo", "B", 4000, 25, 400000, 1500, cpu=90)]),
    "C15": dict(parts=[part("phys", "B", 40000, 25, 6000000, 1500)]),
}

for _p in ("C23", "C24", "C25", "C26", "C27", "C29", "C32"):
    PROPS[_p]["real"] = "the application layer (Application, Scene, Camera, Tool, Renderer, visible objects) and all of simu's physics, math and utility code, compiled from the working tree"
    PROPS[_p]["stub"] = "GLFW (window, events, clock), OpenGL (records what is uploaded and drawn; shaders are accepted but not executed), Dear ImGui (answers which widgets were clicked), operator new/delete (arena), the scenes (scripted by the plan)"

LEVEL_NOTES = {}

NOT_APPLICABLE = {
    "C30": "pure function of two polygons: no schedule, time, I/O, memory or fault for a simulator to vary; input search is another family (contact geometry is exercised through whole worlds by C09, C10 and C22)",
    "C31": "pure functions of their arguments: nothing a deterministic simulator controls can change their results",
}

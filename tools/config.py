"""Which models, harness families and trace specifications decide each property."""


def fam(name, trace, quick, thorough, **kw):
    return dict(family=name, trace=trace, quick=quick, thorough=thorough, **kw)


MCIV = dict(module="MCInterval.tla", cfg="MCInterval.cfg", thorough_cfg="MCInterval_thorough.cfg")
MCFUN = dict(module="MCFun.tla", cfg="MCFun.cfg", thorough_cfg="MCFun_thorough.cfg")

MCXF = dict(module="MCXf.tla", cfg="MCXf.cfg", thorough_cfg="MCXf_thorough.cfg")

MCRB = dict(module="MCRayBox.tla", cfg="MCRayBox.cfg", thorough_cfg="MCRayBox_thorough.cfg")

MCSP = dict(module="MCSphere.tla", cfg="MCSphere.cfg", thorough_cfg="MCSphere_thorough.cfg")

MCSC = dict(module="MCScene.tla", cfg="MCScene.cfg", thorough_cfg="MCScene_thorough.cfg")

MCDK = dict(module="MCDisk.tla", cfg="MCDisk.cfg", thorough_cfg="MCDisk_thorough.cfg")

MCIX = dict(module="MCIXf.tla", cfg="MCIXf.cfg", thorough_cfg="MCIXf_thorough.cfg")

PROPS = {
    "C05": dict(
        exact=True,
        models=[dict(module="MCUlp.tla", cfg="MCUlp.cfg", thorough_cfg="MCUlp_thorough.cfg", workers=1)],
        families=[fam("ulp", "TraceUlp.tla", 300, 20000)],
        require=["step", "walk", "seg"],
        assumptions=["binary64 is sampled (all binade boundaries, random patterns); binary32 is complete"],
    ),
    "C01": dict(
        models=[MCIV], families=[fam("interval", "TraceInterval.tla", 40, 4000)],
        require=["load", "op1", "op2", "ops", "op3"]),
    "C03": dict(
        models=[MCIV], families=[fam("interval", "TraceInterval.tla", 150, 10000)],
        require=["cmp", "cmps", "query", "set", "conv", "gfl", "limits"]),
    "C04": dict(
        models=[MCIV, MCFUN],
        families=[fam("interval", "TraceInterval.tla", 40, 4000), fam("ifun", "TraceFun.tla", 60, 5000)],
        require=["op1", "op2", "ops", "fun", "atan2"], ctl_min=2),
    "C02": dict(
        models=[MCFUN], families=[fam("ifun", "TraceFun.tla", 100, 8000)],
        require=["fun", "atan2", "sc", "const"]),
    "C06": dict(
        models=[dict(module="MCScalar.tla", cfg="MCScalar.cfg", thorough_cfg="MCScalar_thorough.cfg")],
        families=[fam("scalar", "TraceScalar.tla", 100, 8000)],
        require=["lim", "ord", "sq", "sgn", "cls", "fcon", "cast", "close", "comp"]),
    "C07": dict(
        models=[dict(module="MCVec.tla", cfg="MCVec.cfg", thorough_cfg="MCVec_thorough.cfg")],
        families=[fam("vec", "TraceVec.tla", 25, 2000, ctl_every=80)],
        require=["elem", "access", "metric"]),
    "C08": dict(
        models=[dict(module="MCMat.tla", cfg="MCMat.cfg", thorough_cfg="MCMat_thorough.cfg")],
        families=[fam("mat", "TraceMat.tla", 6, 500, ctl_every=40)],
        require=["prod", "inv", "access"]),
    "C09": dict(
        models=[MCXF], families=[fam("xf", "TraceXf.tla", 40, 3000, ctl_every=40)],
        require=["con", "mul", "inv", "map", "ray", "rt", "eval"]),
    "C11": dict(
        models=[MCXF], families=[fam("xf", "TraceXf.tla", 60, 4000, ctl_every=40, ctl_skip=("con", "mul", "inv"))],
        require=["nrm", "map", "rt"]),
    "C12": dict(
        models=[MCXF, dict(module="MCIVec.tla", cfg="MCIVec.cfg", thorough_cfg="MCIVec_thorough.cfg")],
        families=[fam("xf", "TraceXf.tla", 40, 3000, ctl_every=40, ctl_skip=("con", "mul", "inv")),
                  fam("ivec", "TraceIVec.tla", 12, 1500, ctl_every=40)],
        require=["ivmap", "ivray", "ivec"], ctl_min=2),
    "C14": dict(
        models=[MCXF], families=[fam("xf", "TraceXf.tla", 99, 4000, ctl_every=40, ctl_skip=("con", "mul", "inv"))],
        require=["box"]),
    "C10": dict(
        models=[dict(module="MCGeo.tla", cfg="MCGeo.cfg", thorough_cfg="MCGeo_thorough.cfg")],
        families=[fam("geo", "TraceGeo.tla", 40, 3000, ctl_every=40)],
        require=["con", "img", "frustum"]),
    "C13": dict(
        models=[dict(module="MCBox.tla", cfg="MCBox.cfg", thorough_cfg="MCBox_thorough.cfg")],
        families=[fam("box", "TraceBox.tla", 150, 10000, ctl_every=60)],
        require=["new", "dflt", "union", "inter", "in", "ov", "meas"]),
    "C15": dict(
        models=[MCRB], families=[fam("raybox", "TraceRayBox.tla", 600, 40000, ctl_every=60)],
        require=["rb"]),
    "C16": dict(
        models=[MCRB], families=[fam("raybox", "TraceRayBox.tla", 600, 40000, ctl_every=60)],
        require=["rb"], ctl_min=2),
    "C17": dict(
        models=[MCSP], families=[fam("sphere", "TraceSphere.tla", 600, 40000, ctl_every=60)],
        require=["sph"], ctl_min=2),
    "C18": dict(
        models=[MCSP], families=[fam("sphere", "TraceSphere.tla", 600, 40000, ctl_every=40)],
        require=["sph"]),
    "C19": dict(
        models=[MCSC], families=[fam("scene", "TraceScene.tla", 25, 2000, ctl_every=20)],
        require=["leaf", "list", "add", "ask", "bb"]),
    "C20": dict(
        models=[MCSC, MCXF], families=[fam("scene", "TraceScene.tla", 25, 2000, ctl_every=20)],
        require=["leaf", "xf", "add", "ask", "bb"]),
    "C21": dict(
        models=[dict(module="MCCamera.tla", cfg="MCCamera.cfg", thorough_cfg="MCCamera_thorough.cfg"), MCDK],
        families=[fam("cam", "TraceCamera.tla", 150, 10000, ctl_every=30)],
        require=["cam"]),
    "C22": dict(
        models=[MCDK], families=[fam("disk", "TraceDisk.tla", 600, 40000, ctl_every=30)],
        require=["disk"]),
    "C24": dict(
        models=[MCFUN], families=[fam("ifun", "TraceFun.tla", 200, 20000)],
        require=["sf", "ssc", "sa2"]),
    "C23": dict(
        models=[MCIX, MCXF], families=[fam("ixf", "TraceIXf.tla", 30, 2000, ctl_every=30)],
        ctl_min=2, require=["con", "mul", "inv", "minv", "mscale", "map", "ray"]),
}

"""C15 choice of functors"""
SH = "Sphere Box Facet Wall Cylinder ChainedCylinder Clump GridConnection GridNode PFacet Subdomain Tetra".split()
MAT = "ElastMat FrictMat CohFrictMat ViscElMat".split()
GEO = "ScGeom ScGeom6D CylScGeom CylScGeom6D ChCylGeom6D GridCoGridCoGeom GridNodeGeom6D L3Geom L6Geom ScGridCoGeom GenericSpheresContact TTetraGeom".split()
PHY = "NormPhys NormShearPhys FrictPhys CohFrictPhys MindlinPhys ViscElPhys ViscoFrictPhys CapillaryPhys MindlinCapillaryPhys".split()
BO = ["Bo1_%s_Aabb" % s for s in "Box ChainedCylinder Cylinder Facet GridConnection PFacet Sphere Subdomain Tetra Wall".split()]
IG = """Ig2_Box_Sphere_ScGeom Ig2_Box_Sphere_ScGeom6D Ig2_ChainedCylinder_ChainedCylinder_ScGeom6D Ig2_Facet_Sphere_L3Geom Ig2_Facet_Sphere_ScGeom Ig2_Facet_Sphere_ScGeom6D
Ig2_GridConnection_GridConnection_GridCoGridCoGeom Ig2_GridConnection_PFacet_ScGeom Ig2_GridNode_GridNode_GridNodeGeom6D Ig2_PFacet_PFacet_ScGeom Ig2_Sphere_ChainedCylinder_CylScGeom
Ig2_Sphere_ChainedCylinder_CylScGeom6D Ig2_Sphere_GridConnection_ScGridCoGeom Ig2_Sphere_PFacet_ScGridCoGeom Ig2_Sphere_Sphere_L3Geom Ig2_Sphere_Sphere_L6Geom Ig2_Sphere_Sphere_ScGeom
Ig2_Sphere_Sphere_ScGeom6D Ig2_Tetra_Tetra_TTetraGeom Ig2_Wall_PFacet_ScGeom Ig2_Wall_Sphere_L3Geom Ig2_Wall_Sphere_ScGeom""".split()
IP = """Ip2_CohFrictMat_CohFrictMat_CohFrictPhys Ip2_ElastMat_ElastMat_NormPhys Ip2_ElastMat_ElastMat_NormShearPhys Ip2_FrictMat_FrictMat_CapillaryPhys Ip2_FrictMat_FrictMat_FrictPhys
Ip2_FrictMat_FrictMat_MindlinCapillaryPhys Ip2_FrictMat_FrictMat_MindlinPhys Ip2_FrictMat_FrictMat_ViscoFrictPhys Ip2_ViscElMat_ViscElMat_ViscElPhys""".split()
LA = """Law2_ChCylGeom6D_CohFrictPhys_CohesionMoment Law2_CylScGeom6D_CohFrictPhys_CohesionMoment Law2_CylScGeom_FrictPhys_CundallStrack Law2_GridCoGridCoGeom_FrictPhys_CundallStrack
Law2_L3Geom_FrictPhys_ElPerfPl Law2_L6Geom_FrictPhys_Linear Law2_ScGeom6D_CohFrictPhys_CohesionMoment Law2_ScGeom_FrictPhys_CundallStrack Law2_ScGeom_MindlinPhys_HertzWithLinearShear
Law2_ScGeom_MindlinPhys_Mindlin Law2_ScGeom_MindlinPhys_MindlinDeresiewitz Law2_ScGeom_ViscElPhys_Basic Law2_ScGeom_ViscoFrictPhys_CundallStrack Law2_ScGridCoGeom_CohFrictPhys_CundallStrack
Law2_ScGridCoGeom_FrictPhys_CundallStrack""".split()
KIND = {"geom": (IG, SH, SH), "phys": (IP, MAT, MAT), "law": (LA, GEO, PHY), "bound": (BO, SH, SH)}


def look(rng):
    k = rng.choice(["geom", "geom", "phys", "law", "law", "bound"])
    F, A, B = KIND[k]
    pick = lambda: rng.sample(F, rng.randint(1, min(len(F), rng.choice([2, 4, 8, 20]))))
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops += [{"op": "get", "a": rng.choice(A), "b": rng.choice(B)} for _ in range(rng.randint(5, 40))]
        r = rng.random()
        ops.append({"op": "set", "fs": pick(), "how": rng.random() < .5} if r < .7 else {"op": "load"})
    # every pair once more, in any order
    al = [(a, b) for a in A for b in B]
    rng.shuffle(al)
    ops += [{"op": "get", "a": a, "b": b} for a, b in al]
    return {"kind": k, "fs": pick(), "ops": ops}


def contacts(rng):
    ops = []
    if rng.random() < .6:
        k, how = "phys", rng.choice(["step", "call"])
        if how == "step":     # there must be a functor and a law for every pair
            fs = [rng.choice(["Ip2_FrictMat_FrictMat_FrictPhys", "Ip2_FrictMat_FrictMat_MindlinPhys"]), "Ip2_ViscElMat_ViscElMat_ViscElPhys"][:rng.randint(1, 2)]
            A = MAT[1:]
        else:
            fs = rng.sample([f for f in IP if "Capillary" not in f], rng.randint(1, 4))
            A = MAT
        rng.shuffle(fs)
    else:
        k, how = "geom", "step"
        fs = rng.sample([f for f in IG if f[4:7] in ("Box", "Fac", "Wal") and "PFacet" not in f or f.startswith("Ig2_Sphere_Sphere")], rng.randint(2, 7))
        A = ["Sphere", "Sphere", "Box", "Facet", "Wall"]
    for _ in range(rng.randint(1, 4)):
        prs = []
        for _ in range(rng.randint(1, 5)):
            a, b = rng.choice(A), rng.choice(A)
            if k == "geom" and a != "Sphere" and b != "Sphere":
                a = "Sphere"
            prs.append([a, b])
        if k == "geom" and any("Wall" in p for p in prs):    # a wall is endless: alone
            prs = [next(p for p in prs if "Wall" in p)]
        ops.append({"op": "make", "how": how, "pairs": prs})
        if rng.random() < .2:
            ops.append({"op": "load"})
    return {"kind": k, "fs": fs, "ops": ops}


def run(ctx):
    ctx.model_check("MCDispatch")
    k = 12 if ctx.thorough else 1
    sc = [look(ctx.rng) for _ in range(120 * k)] + [contacts(ctx.rng) for _ in range(150 * k)]
    ctx.rng.shuffle(sc)
    tr = ctx.record_and_validate("dispatch", "TDispatch", "TDispatch.cfg", sc, timeout=600)
    t = next(t for t in tr if any(e["op"] == "get" and e["r"] not in ("none", "ambiguous") for e in t))
    j = next(i for i, e in enumerate(t) if e["op"] == "get" and e["r"] not in ("none", "ambiguous"))
    ctx.expect_rejected("TDispatch", "TDispatch.cfg", t[:j] + [dict(t[j], r="none")])
    t = next(t for t in tr if any(e["op"] == "made" and e["made"] != "none" for e in t))
    j = next(i for i, e in enumerate(t) if e["op"] == "made" and e["made"] != "none")
    ctx.expect_rejected("TDispatch", "TDispatch.cfg", t[:j] + [dict(t[j], made="none")])

TOPO = [("MC_Topo", "MC_Topo4.cfg"), ("MC_Topo", "MC_Topo5.cfg")]
WALK = TOPO + [("MC_Walks", "MC_Walks43.cfg", 3), ("MC_Walks", "MC_Walks5.cfg", 2)]
WALKT = [("MC_Walks", "MC_Walks4.cfg", 6)]
MAPS = [("MC_Maps", "MC_Maps.cfg", 2)]
SUBD = [("MC_Subdiv", "MC_Subdiv.cfg", 2), ("MC_Subdiv", "MC_Subdiv5.cfg", 3)]
QUAD = [("MC_Quadtree", "MC_Quadtree2.cfg", 2), ("MC_Quadtree", "MC_Quadtree3.cfg", 2)]
AABB = [("MC_Aabb", "MC_Aabb.cfg", 2), ("MC_Aabb", "MC_Aabb_find.cfg", 2)]
DIST = [("MC_DistGeo", "MC_DistGeo_%s.cfg" % m, 2) for m in ("point", "edge", "tri")]
RAYS = [("MC_Rays", "MC_Rays_%s.cfg" % m, 2) for m in ("box2", "tri", "seg")]
WIND = [("MC_Winding", "MC_Winding4.cfg", 2), ("MC_Winding", "MC_Winding5.cfg", 4)]
MSQ = [("MC_MarchSq", "MC_MarchSq33.cfg", 3), ("MC_MarchSq", "MC_MarchSq43.cfg", 3)]
QSOL = [("MC_QuadSolve", "MC_QuadSolve_opt.cfg", 2), ("MC_QuadSolve", "MC_QuadSolve_hist.cfg", 2)]
PROPS = {
    "P35": dict(models=[("MC_Spectrum", "MC_Spectrum.cfg", 2), ("MC_Psr", "MC_Psr2.cfg", 4)], models_thorough=[("MC_Psr", "MC_Psr3.cfg", 6)], driver="drv_psr:p35", trace="Tr_Psr", chunks=8),
    "P34": dict(models=[("MC_Spectrum", "MC_Spectrum.cfg", 2)], driver="drv_psr:p34", trace="Tr_Spectrum", chunks=8),
    "P36": dict(models=[("MC_Storage", "MC_Storage.cfg", 2), ("MC_StorageSp", "MC_StorageSp.cfg", 1)], driver="drv_store:p36", trace="Tr_Storage", chunks=8),
    "P44": dict(models=[("MC_Arcs", "MC_Arcs.cfg", 2), ("MC_ArcsCtl", "MC_ArcsCtl.cfg", 1)], driver="drv_arcs:p44", trace="Tr_Arcs", chunks=8, native="arcs"),
    "P43": dict(models=[("MC_Cage", "MC_Cage.cfg", 2), ("MC_Keep", "MC_Keep.cfg", 2)], driver="drv_wrap:p43", trace="Tr_Wrap", chunks=8),
    "P42": dict(models=[("MC_Envelope", "MC_Envelope.cfg", 2), ("MC_Envelope", "MC_Envelope3.cfg", 2)], models_thorough=[("MC_Envelope", "MC_Envelope3t.cfg", 4)], driver="drv_tets:p42", trace="Tr_Envelope", chunks=8, native="env"),
    "P41": dict(models=[("MC_Matryoshka", "MC_Matryoshka.cfg", 2)], driver="drv_nest:p41", trace="Tr_Matryoshka", chunks=8, native="geo+cpp"),
    "P40": dict(models=[("MC_Png", "MC_Png.cfg", 2)], models_thorough=[("MC_Png", "MC_Png2.cfg", 6)], driver="drv_png:p40", trace="Tr_Png", chunks=8),
    "P39": dict(models=[("MC_Spheres", "MC_Spheres.cfg", 2), ("MC_SpheresCtl", "MC_SpheresCtl.cfg", 2)], driver="drv_spheres:p39", trace="Tr_Spheres", chunks=8, native="geo"),
    "P38": dict(models=[("MC_Formats", "MC_Formats.cfg", 2)], driver="drv_native:p38", trace="Tr_Formats", chunks=8, native=True),
    "P37": dict(models=[("MC_Batch", "MC_Batch.cfg", 2)], driver="drv_batch:p37", trace="Tr_Batch", chunks=8),
    "P27": dict(models=[("MC_Purity", "MC_Purity.cfg", 2)], driver="drv_purity:p27", trace="Tr_Purity", chunks=8),
    "P31": dict(models=[("MC_Colors", "MC_Colors.cfg", 2)], driver="drv_color:p31", trace="Tr_Colors", chunks=8),
    "P32": dict(models=[("MC_Elasticity", "MC_Elasticity.cfg", 2)], models_thorough=[("MC_Elasticity", "MC_Elasticity2.cfg", 6)], driver="drv_elastic:p32", trace="Tr_Elasticity", chunks=8),
 "P23": dict(models=[("MC_MinL1", "MC_MinL1.cfg", 4)], driver="drv_solve:p23", trace="Tr_MinL1", chunks=8),
    "P24": dict(models=[("MC_MeshFile", "MC_MeshFile.cfg", 4)], driver="drv_file:p24", trace="Tr_MeshFile", chunks=8),
    "P25": dict(models=[("MC_Swarm", "MC_Swarm.cfg", 2), ("MC_Swarm", "MC_Swarm_ring.cfg", 2), ("MC_SwarmScript", "MC_SwarmScript.cfg", 1)], driver="drv_search:p25", trace="Tr_Swarm", chunks=8, native=True),
    "P26": dict(models=[("MC_Chain", "MC_Chain.cfg", 4)], driver="drv_search:p26", trace="Tr_Chain", chunks=8),
    "P28": dict(models=[("MC_Sampling", "MC_Sampling.cfg", 2)], driver="drv_sample:p28", trace="Tr_Sampling", chunks=8),
    "P29": dict(models=[("MC_Deform", "MC_Deform.cfg", 2)], driver="drv_deform:p29", trace="Tr_Deform", chunks=8),
    "P30": dict(models=[("MC_Kernels", "MC_Kernels.cfg", 2)], driver="drv_gp:p30", trace="Tr_Kernels", chunks=8),
 "P22": dict(models=QSOL, driver="drv_solve:p22", trace="Tr_QuadSolve", chunks=8),
 "P21": dict(models=[("MC_GridOps", "MC_GridOps.cfg", 2)], driver="drv_grid:p21", trace="Tr_GridOps", chunks=8),
 "P20": dict(models=MSQ, driver="drv_grid:p20", trace="Tr_MarchSq", chunks=8),
 "P19": dict(models=WIND + DIST[:1] + [("MC_Wind3", "MC_Wind3.cfg", 1)], driver="drv_winding:p19", trace="Tr_Winding", chunks=8, native="geo"),
 "P18": dict(models=RAYS + [("MC_Rays", "MC_Rays_box3.cfg", 4)] + AABB[1:], driver="drv_rays:p18", trace="Tr_Rays", chunks=8, native="geo"),
 "P16": dict(models=DIST[:1] + AABB[1:], driver="drv_dist:p16", trace="Tr_Dist", chunks=8, native="geo"),
 "P17": dict(models=DIST + AABB[1:], driver="drv_dist:p17", trace="Tr_Dist", chunks=8, native="geo"),
 "P15": dict(models=AABB, driver="drv_aabb:p15", trace="Tr_Aabb", chunks=8),
 "P13": dict(models=QUAD, driver="drv_quadtree:p13", trace="Tr_Quadtree", chunks=8),
 "P14": dict(models=QUAD, driver="drv_quadtree:p14", trace="Tr_Quadtree", chunks=8),
 "P12": dict(models=TOPO, driver="drv_metric:p12", trace="Tr_Metric", chunks=8),
 "P10": dict(models=TOPO, driver="drv_fem:p10", trace="Tr_Fem", chunks=8),
 "P11": dict(models=TOPO, driver="drv_fem:p11", trace="Tr_Fem", chunks=8),
 "P09": dict(models=[("MC_GridMesh", "MC_GridMesh.cfg", 2)], driver="drv_shapes:p09", trace="Tr_Shapes", chunks=8),
 "P08": dict(models=SUBD, driver="drv_subdiv:p08", trace="Tr_Subdiv", chunks=8),
 "P07": dict(models=MAPS, driver="drv_maps:p07", trace="Tr_Maps", chunks=8),
 "P01": dict(models=TOPO, driver="drv_topo:p01", trace="Tr_Incidence", chunks=8),
 "P02": dict(models=TOPO, driver="drv_topo:p02", trace="Tr_Incidence", chunks=8),
 "P03": dict(models=TOPO, driver="drv_topo:p03", trace="Tr_Surface", chunks=8),
 "P04": dict(models=WALK, models_thorough=WALKT, driver="drv_topo:p04", trace="Tr_Surface", chunks=8),
 "P05": dict(models=WALK, models_thorough=WALKT, driver="drv_topo:p05", trace="Tr_Surface", chunks=8),
 "P06": dict(models=WALK, models_thorough=WALKT, driver="drv_topo:p06", trace="Tr_Surface", chunks=8),
}
NOT_APPLICABLE = {
 "P33": "The functions run only in the part of the compiled C++ extension that needs libigl, CGAL or embree, none of which is in this sandbox; there is no execution to bind a specification to. (The part that needs only Eigen is compiled by the checks: P25, P38, P41, P42; what the Python side adds is P43.)",
}

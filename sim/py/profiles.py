"""Engine cases: settings profiles, models and command lines."""
import random
import models as M
from simlib import SIM, Case

BASE = []
for _l in open(f"{SIM}/data/base_settings.txt"):
    _l = _l.rstrip("\n")
    if _l:
        BASE.append(_l)


def P(**kw):
    return {k: str(v) for k, v in kw.items()}


# name -> (global settings, extruder settings, model kinds)
FAST = P(layer_height=0.3, layer_height_0=0.3, top_layers=2, bottom_layers=1, initial_bottom_layers=1)
PROFILES = {
    "plain": (P(), ["prism", "star", "box", "multi"]),
    "thick": (P(infill_sparse_thickness=0.6, top_layers=3, bottom_layers=2), ["prism", "box"]),
    "lightning": (P(infill_pattern="lightning", infill_sparse_density=20), ["cone", "box", "sphere", "multi"]),
    "gyroid": (P(infill_pattern="gyroid", zig_zaggify_infill="true"), ["prism", "box"]),
    "cubicsubdiv": (P(infill_pattern="cubicsubdiv"), ["box", "sphere"]),
    "cross3d": (P(infill_pattern="cross_3d", infill_sparse_density=30, cross_infill_pocket_size=2), ["box", "prism"]),
    "honeycomb": (P(infill_pattern="honeycomb"), ["box"]),
    "concentric": (P(infill_pattern="concentric", top_bottom_pattern="concentric", top_bottom_pattern_0="concentric"), ["star", "prism"]),
    "zigzag": (P(infill_pattern="zigzag", connect_infill_polygons="true", infill_randomize_start_location="true"), ["box", "star"]),
    "fuzzy": (P(magic_fuzzy_skin_enabled="true", magic_fuzzy_skin_thickness=0.3, magic_fuzzy_skin_point_dist=0.8, magic_fuzzy_skin_point_density=1.25), ["prism", "multi"]),
    "treesupport": (P(support_enable="true", support_structure="tree", support_type="everywhere", support_angle=45, support_z_distance=0.3, support_top_distance=0.3, support_bottom_distance=0.3), ["overhang", "sphere", "cone"]),
    "treeroof": (P(support_enable="true", support_structure="tree", support_type="buildplate", support_roof_enable="true", support_interface_enable="true", support_roof_height=0.6, support_tree_rest_preference="graceful"), ["overhang", "sphere"]),
    "treelattice": (P(support_enable="true", support_structure="tree", support_type="everywhere", support_angle=45, support_z_distance=0.3, support_top_distance=0.3, support_bottom_distance=0.3, support_tree_tip_diameter=0.8), ["lattice"]),
    "support": (P(support_enable="true", support_structure="normal", support_type="everywhere", support_interface_enable="true", support_roof_enable="true", support_bottom_enable="true", support_infill_rate=20), ["overhang", "sphere", "cone"]),
    "supportlightning": (P(support_enable="true", support_structure="normal", support_type="everywhere", support_pattern="lightning"), ["overhang"]),
    "supportconical": (P(support_enable="true", support_structure="normal", support_type="everywhere", support_conical_enabled="true", support_conical_angle=30, support_use_towers="true"), ["overhang", "sphere"]),
    "brim": (P(adhesion_type="brim", brim_width=4, brim_line_count=8, brim_smart_ordering="true"), ["multi", "star"]),
    "raft": (P(adhesion_type="raft"), ["prism", "multi"]),
    "spiral": (P(magic_spiralize="true", smooth_spiralized_contours="true", infill_sparse_density=0, top_layers=0), ["prism", "cone"]),
    "adaptive": (P(adaptive_layer_height_enabled="true"), ["sphere", "dome"]),
    "ironing": (P(ironing_enabled="true", roofing_layer_count=1, flooring_layer_count=1, skin_monotonic="true", roofing_monotonic="true"), ["box", "star"]),
    "bridge": (P(bridge_settings_enabled="true"), ["overhang"]),
    "mold": (P(mold_enabled="true"), ["prism"]),
    "conical": (P(conical_overhang_enabled="true"), ["overhang", "cone"]),
    "surface": (P(magic_mesh_surface_mode="both"), ["prism"]),
    "startrandom": (P(infill_start_end_preference="start_random", infill_pattern="lines", infill_sparse_density=15), ["box", "multi"]),
    "seamrandom": (P(z_seam_type="random"), ["star", "multi"]),
    "zseam": (P(z_seam_type="sharpest_corner", z_seam_corner="z_seam_corner_inner", retraction_hop_enabled="true"), ["star", "multi"]),
    "gradual": (P(gradual_infill_steps=2, gradual_infill_step_height=0.6, skin_edge_support_layers=1), ["box", "dome"]),
    "shield": (P(draft_shield_enabled="true", coasting_enable="true"), ["prism"]),
    "slicingtol": (P(slicing_tolerance="exclusive", infill_support_enabled="true"), ["cone", "sphere"]),
    "thinwalls": (P(fill_outline_gaps="true", wall_line_count=4, small_hole_max_size=3, meshfix_union_all="true"), ["star", "multi"]),
    "skinsupport": (P(skin_support="true", skin_support_density=40, infill_line_distance=2), ["steps", "box"]),
    "skininterlace": (P(skin_support="true", skin_support_density=100, skin_support_interlace_lines="true", infill_line_distance=1.5, infill_pattern="zigzag", infill_wall_line_count=1), ["steps"]),
    "gradualflow": (P(gradual_flow_enabled="true", max_flow_acceleration=1, layer_0_max_flow_acceleration=1, reset_flow_duration=2, machine_gcode_flavor="RepRap (Marlin/Sprinter)"), ["prism", "box"]),
    "flowtemp": (P(material_flow_dependent_temperature="true", material_flow_temp_graph="[[1,200],[3.5, 210],[7.0, 240]]", speed_print=90), ["prism", "steps"]),
    "crosssupport": (P(support_enable="true", support_structure="normal", support_type="everywhere", support_pattern="cross", support_roof_enable="true", support_interface_enable="true", support_wall_count=1), ["overhang"]),
    "inwards": (P(infill_start_end_preference="start_random", infill_start_move_inwards_length=1, infill_end_move_inwards_length=0.5, infill_pattern="zigzag", infill_line_distance=2), ["box", "steps"]),
    "bridges": (P(bridge_settings_enabled="true", bridge_enable_more_layers="true", bridge_sparse_infill_max_density=30, bridge_skin_density=60, bridge_wall_coast=50, bottom_layers=4), ["overhang", "steps"]),
    "shieldraft": (P(draft_shield_enabled="true", draft_shield_dist=3, adhesion_type="raft", raft_base_remove_inside_corners="true", raft_interface_remove_inside_corners="true", raft_surface_remove_inside_corners="true"), ["multi"]),
    "relprime": (P(relative_extrusion="true", retraction_extra_prime_amount=0.5, retraction_enable="true", retraction_amount=1.5), ["multi", "star"]),
    "relative": (P(relative_extrusion="true", machine_gcode_flavor="RepRap (Marlin/Sprinter)", machine_firmware_retract="true"), ["multi"]),
    "ufp": (P(machine_gcode_flavor="UltiGCode"), ["prism", "multi"]),
    "griffin": (P(machine_gcode_flavor="Griffin"), ["multi", "prism"]),
}


def cli(args_pre, objects, out="{D}/out.gcode", threads=3, base=True, general=(), post=()):
    """arg= lines. objects: list of (extruder or None, per-extruder settings, model, per-object settings, next?)."""
    a = ["CuraEngine", "slice"] + list(args_pre)
    if threads:
        a.append(f"-m{threads}")
    if base:
        for l in BASE:
            a += ["-s", l]
    for s in general:
        a += ["-s", s]
    for o in objects:
        if o.get("next"):
            a.append("--next")
        if o.get("group"):
            a.append("-g")
            for s in o["group"]:
                a += ["-s", s]
        if o.get("extruder") is not None:
            a.append(f"-e{o['extruder']}")
            for s in o.get("esettings", ()):
                a += ["-s", s]
        a += ["-l", o["model"]]
        for s in o.get("settings", ()):
            a += ["-s", s]
    a += ["-o", out]
    return ["arg=" + x for x in a]


def kv(d):
    return [f"{k}={v}" for k, v in d.items()]


def slice_case(profile, rng, threads=3, height=None, extra=None, kind=None):
    prof, kinds = PROFILES[profile]
    kind = kind or rng.choice(kinds)
    h = height or rng.uniform(1.5, 3.2)
    T = M.make(kind, rng, h)
    gen = dict(FAST)
    gen.update(prof)
    if extra:
        gen.update(extra)
    files = {"model.stl": M.stl(T)}
    # settings are given both globally and to the extruder, as the front-end does
    lines = cli([], [{"extruder": 0, "esettings": kv(gen), "model": "{D}/model.stl"}], threads=threads, general=kv(gen))
    c = Case("slice", lines, files, "engine", f"{profile}/{kind}/h{h:.2f}")
    return c


def paint_case(rng, threads=3, extra=None, nfeat=True):
    """A textured model whose texture assigns extruders and areas."""
    h = rng.uniform(2.0, 4.0)
    T = M.box(40, 40, 0, 40 + rng.uniform(6, 12), 40 + rng.uniform(6, 12), h)
    n = len(T)
    w = 16
    uv = []
    for i in range(n):
        x0, y0 = (i % 4) / 4.0, (i // 4) / 4.0
        uv.append([(x0 + 0.02, y0 + 0.02), (x0 + 0.22, y0 + 0.02), (x0 + 0.22, y0 + 0.22)])
    rows = [bytes(rng.choice([0, 1]) | (rng.choice([0, 1, 2]) << 1) | (rng.choice([0, 1, 2]) << 3) for _ in range(w)) for _ in range(w)]
    png = M.png(w, w, rows, 1, {"Description": '{"extruder":[0,0],"support":[1,2],"seam":[3,4]}'})
    gen = dict(FAST)
    gen.update({"machine_extruder_count": "2", "extruders_enabled_count": "2", "multi_material_paint_resolution": "0.8", "multi_material_paint_depth": "2", "prime_tower_enable": "false"})
    if extra:
        gen.update(extra)
    files = {"model.stl": M.stl(T), "model.uv": M.uv_file(uv), "model.png": png}
    lines = cli([], [{"extruder": 0, "esettings": kv(gen), "model": "{D}/model.stl"}], threads=threads, general=kv(gen))
    # the second extruder exists before the model is loaded
    i = lines.index("arg=-e0")
    lines[i:i] = ["arg=-e1"] + [x for s in kv(gen) for x in ("arg=-s", "arg=" + s)]
    return Case("slice", lines, files, "engine", f"paint/h{h:.2f}")


def dual_case(rng, threads=3, extra=None):
    """Two extruders, two objects, optionally a prime tower."""
    gen = dict(FAST)
    gen.update({"machine_extruder_count": "2", "extruders_enabled_count": "2", "prime_tower_enable": rng.choice(["true", "false"]), "ooze_shield_enabled": rng.choice(["false", "true"]), "prime_tower_mode": rng.choice(["normal", "interleaved"]), "interlocking_enable": rng.choice(["false", "true"])})
    if extra:
        gen.update(extra)
    other = {}
    if rng.random() < 0.5:  # another material
        up = rng.choice([-35, 30])
        for k in ("material_print_temperature", "material_print_temperature_layer_0", "material_initial_print_temperature", "material_final_print_temperature", "cool_min_temperature"):
            v = float(gen.get(k, dict(l.split("=", 1) for l in BASE)[k]))
            other[k] = f"{v + up if v else 0:g}"
        other["material_standby_temperature"] = str(rng.choice([90, 130, 150]))
    h = rng.uniform(1.5, 3)
    a = M.box(40, 40, 0, 48, 48, h)
    b = M.box(48, 40, 0, 54, 50, h)
    files = {"a.stl": M.stl(a), "b.stl": M.stl(b)}
    objs = [{"extruder": 0, "esettings": kv(gen), "model": "{D}/a.stl", "settings": ["extruder_nr=0"]},
            {"extruder": 1, "esettings": kv(dict(gen, **other)), "model": "{D}/b.stl", "settings": ["extruder_nr=1"]}]
    return Case("slice", cli([], objs, threads=threads, general=kv(gen)), files, "engine", f"dual/{gen['prime_tower_mode']}/{gen['interlocking_enable']}/h{h:.2f}")


# settings of prints with two extruders
DUAL = {
    "adhesion_type": ["none", "skirt", "brim", "raft"], "adhesion_extruder_nr": [0, 1, -1], "skirt_brim_extruder_nr": [0, 1, -1], "raft_base_extruder_nr": [0, 1], "raft_interface_extruder_nr": [0, 1], "raft_surface_extruder_nr": [0, 1],
    "support_enable": ["true"], "support_extruder_nr": [0, 1], "support_infill_extruder_nr": [0, 1], "support_extruder_nr_layer_0": [0, 1], "support_interface_enable": ["true"], "support_roof_enable": ["true"], "support_bottom_enable": ["true"], "support_roof_extruder_nr": [0, 1], "support_bottom_extruder_nr": [0, 1],
    "wall_0_extruder_nr": [0, 1], "wall_x_extruder_nr": [0, 1], "infill_extruder_nr": [0, 1], "top_bottom_extruder_nr": [0, 1], "roofing_extruder_nr": [0, 1], "roofing_layer_count": [0, 1], "initial_extruder_nr": [0, 1],
    "prime_tower_brim_enable": ["true", "false"], "prime_tower_size": [10, 20], "prime_tower_min_volume": [2, 20], "prime_tower_wipe_enabled": ["true", "false"], "prime_tower_max_bridging_distance": [0, 5], "prime_tower_min_shell_thickness": [0.4, 2], "prime_tower_base_size": [0, 5], "prime_tower_base_height": [0, 1.2], "prime_tower_raft_base_line_spacing": [1, 1.6],
    "ooze_shield_enabled": ["true", "false"], "ooze_shield_angle": [30, 80], "ooze_shield_dist": [1, 3], "draft_shield_enabled": ["true"],
    "machine_nozzle_offset_x": [0, 18], "machine_extruders_share_heater": ["true"], "machine_extruders_share_nozzle": ["true"], "machine_extruders_shared_nozzle_initial_retraction": [0, 10], "machine_nozzle_temp_enabled": ["true", "false"], "machine_min_cool_heat_time_window": [0, 5], "machine_extruder_change_duration": [0, 4],
    "switch_extruder_retraction_amount": [0, 8], "switch_extruder_extra_prime_amount": [0, 0.5], "retraction_hop_after_extruder_switch": ["true", "false"], "retraction_hop_after_extruder_switch_height": [1],
    "material_standby_temperature": [110, 175], "material_final_print_temperature": [195, 205, 0], "material_initial_print_temperature": [200, 210, 0], "material_print_temperature_layer_0": [200, 220], "material_print_temp_wait": ["true"], "material_print_temp_prepend": ["true"], "material_bed_temp_prepend": ["true"], "prime_blob_enable": ["true"], "extruder_prime_pos_x": [20], "extruder_prime_pos_y": [20], "extruder_prime_pos_abs": ["true"],
    "machine_extruder_start_code": ["M117 start"], "machine_extruder_end_code": ["M117 end"], "machine_extruder_start_code_duration": [3], "carve_multiple_volumes": ["true"], "alternate_carve_order": ["true"], "multiple_mesh_overlap": [0.1], "interlocking_enable": ["true"], "interlocking_beam_layer_count": [1, 2], "interlocking_depth": [1, 2],
}


def dual_mix_case(rng, threads=3, extra=None):
    ex = {}
    for src, n in ((DUAL, rng.choice([2, 5, 10])), (TWEAKS, rng.choice([0, 1, 3, 6]))):
        for k in rng.sample(sorted(src), n):
            ex[k] = str(rng.choice(src[k]))
    ex.update(extra or {})
    c = dual_case(rng, threads, ex)
    c.tag = "dualmix/" + ",".join(f"{k}={v}" for k, v in ex.items()) + "/" + c.tag
    return c


# settings of supports
SUPPORT = {
    "support_type": ["buildplate", "everywhere", "everywhere"], "support_angle": [20, 45, 60, 80], "support_z_distance": [0, 0.1, 0.3, 0.5], "support_top_distance": [0, 0.1, 0.3, 0.6], "support_bottom_distance": [0, 0.1, 0.3],
    "support_roof_enable": ["true", "true", "false"], "support_bottom_enable": ["true", "false"], "support_roof_height": [0.3, 0.6, 1.2], "support_bottom_height": [0.3, 0.9], "support_roof_line_distance": [0.4, 1, 2.5], "support_bottom_line_distance": [0.4, 1.2],
    "support_roof_pattern": ["lines", "grid", "triangles", "concentric", "zigzag"], "support_bottom_pattern": ["lines", "grid", "concentric", "zigzag"], "support_roof_wall_count": [0, 1, 2], "support_bottom_wall_count": [0, 1], "support_roof_offset": [0, 0.8, 2], "support_bottom_offset": [0, 0.8],
    "support_interface_priority": ["interface_area_overwrite_support_area", "support_area_overwrite_interface_area", "interface_lines_overwrite_support_area", "support_lines_overwrite_interface_area", "nothing"],
    "support_xy_distance": [0.2, 0.7, 1.2], "support_xy_distance_overhang": [0, 0.2, 0.5], "support_xy_overrides_z": ["xy_overrides_z", "z_overrides_xy"], "support_offset": [-0.3, 0, 0.5, 1.5], "support_join_distance": [0, 2, 6],
    "support_pattern": ["lines", "grid", "triangles", "concentric", "zigzag", "cross", "gyroid", "lightning"], "support_line_distance": [0, 1, 2.5, 6], "support_initial_layer_line_distance": [0.8, 3], "support_wall_count": [0, 1, 2], "support_wall_thickness": [0, 0.4, 0.8], "support_enlarged_wall_thickness": [0.4, 1.2],
    "support_wall_thickness_bottom_layers": [0, 2], "support_wall_thickness_top_layers": [0, 2], "support_wall_thickness_layer_smooth": [0, 3], "support_connect_zigzags": ["true", "false"], "zig_zaggify_support": ["true", "false"], "support_skip_some_zags": ["true"], "support_zag_skip_count": [2, 4],
    "support_infill_sparse_thickness": [0.3, 0.6], "support_infill_multiplier": [1, 2], "gradual_support_infill_steps": [0, 1, 2], "gradual_support_infill_step_height": [0.4, 1], "support_infill_angles": ["[0, 90]", "[45]"], "support_roof_angles": ["[30, 60]"],
    "support_bottom_stair_step_height": [0, 0.6, 1.2], "support_bottom_stair_step_width": [1, 5], "support_bottom_stair_step_min_slope": [2, 10, 40], "support_brim_enable": ["true"], "support_brim_line_count": [2, 5], "support_brim_width": [2], "support_fan_enable": ["true"], "support_supported_skin_fan_speed": [20],
    "support_use_towers": ["true", "false"], "support_tower_diameter": [2, 4], "support_tower_maximum_supported_diameter": [2, 5], "support_tower_roof_angle": [0, 45], "support_conical_enabled": ["true", "false"], "support_conical_angle": [-20, 10, 40], "support_conical_min_width": [1, 5],
    "minimum_support_area": [0, 2], "minimum_roof_area": [0, 1, 5], "minimum_bottom_area": [0, 2], "support_outside_base_height": [0, 1], "support_inside_base_height": [0, 1], "support_base_outside_width": [0.5, 2], "support_z_seam_away_from_model": ["true", "false"], "support_lightning_overhang_angle": [20, 60],
    "support_tree_angle": [30, 60, 80], "support_tree_angle_slow": [10, 40], "support_tree_branch_diameter": [1.2, 2, 5], "support_tree_branch_diameter_angle": [0, 7, 15], "support_tree_branch_distance": [0.5, 1, 3], "support_tree_bp_diameter": [2, 7.5], "support_tree_tip_diameter": [0.4, 0.8, 1.6],
    "support_tree_top_rate": [5, 10, 35], "support_tree_max_diameter": [3, 25], "support_tree_max_diameter_increase_by_merges_when_support_to_model": [0, 1, 3], "support_tree_min_height_to_model": [0, 1, 3], "support_tree_limit_branch_reach": ["true", "false"], "support_tree_branch_reach_limit": [3, 30],
    "support_tree_rest_preference": ["buildplate", "graceful"], "support_extruder_nr_layer_0": [0], "layer_height": [0.2, 0.25, 0.35, 0.45], "adhesion_type": ["none", "skirt", "brim", "raft"], "fill_outline_gaps": ["true", "false"], "xy_offset": [0.1], "support_line_width": [0.35, 0.6],
}
SUPPORTED = ("overhang", "shelves", "mushrooms", "wedge", "shelves", "mushrooms", "cone", "sphere")


def support_mix_case(rng, threads=3, extra=None, structure="normal"):
    """Supports with a random choice of their settings; structure: normal or tree. There may be blockers, support meshes or a second object."""
    ex = {"support_enable": "true", "support_structure": structure, "support_angle": "45", "support_type": "everywhere", "layer_height": "0.35", "layer_height_0": "0.35", "infill_line_distance": "0", "top_layers": "1"}
    if structure == "tree":
        ex.update(support_tree_branch_diameter="2", support_tree_tip_diameter="0.8")
    often = {"support_roof_enable": "true", "support_bottom_enable": "false", "support_xy_overrides_z": "xy_overrides_z", "minimum_roof_area": "0.3", "support_roof_wall_count": "0", "support_tree_rest_preference": "graceful"}
    for k in rng.sample(sorted(SUPPORT), rng.choice([3, 8, 14, 20])):
        if structure == "tree" or "tree" not in k:
            ex[k] = str(rng.choice(SUPPORT[k]))
    for k, v in often.items():
        if rng.random() < 0.35:
            ex[k] = v
    ex.update(extra or {})
    kind = rng.choice(SUPPORTED)
    h = rng.uniform(1.5, 3)
    gen = dict(FAST, **ex)
    files = {"model.stl": M.stl(M.make(kind, rng, h))}
    objs = [{"extruder": 0, "esettings": kv(gen), "model": "{D}/model.stl", "settings": ["extruder_nr=0"]}]
    second = rng.choice([None, None, None, "anti_overhang_mesh", "support_mesh", "cutting_mesh", "object", "other"])
    if second:
        x, y, z = rng.uniform(38, 56), rng.uniform(42, 52), rng.uniform(0, 1.5)
        if second in ("object", "other"):
            z = 0
            x += 12
            files["b.stl"] = M.stl([tuple((p[0] + 14, p[1], p[2]) for p in t) for t in M.make(rng.choice(SUPPORTED), rng, h)])
        else:
            files["b.stl"] = M.stl(M.box(x, y, z, x + rng.uniform(2, 7), y + rng.uniform(2, 7), z + rng.uniform(0.5, 3)))
        objs.append({"extruder": 0, "model": "{D}/b.stl", "settings": ["extruder_nr=0"] + {"object": [], "other": ["support_angle=60", "support_line_distance=1.7", "support_tree_branch_diameter=3", "support_structure=" + rng.choice(["tree", "normal"])]}.get(second, [second + "=true", "support_mesh_drop_down=" + rng.choice(["true", "false"])])})
    c = Case("slice", cli([], objs, threads=threads, general=kv(gen)), files, "engine", f"{kind}/{second}/h{h:.2f}")
    c.tag = {"tree": "treemix", "normal": "supmix"}[structure] + "/" + ",".join(f"{k}={v}" for k, v in ex.items()) + "/" + c.tag
    return c


def mods_mix_case(rng, threads=3, extra=None):
    ex = {k: str(rng.choice(TWEAKS[k])) for k in rng.sample(sorted(TWEAKS), rng.choice([1, 3, 6]))}
    ex.update(extra or {})
    c = mods_case(rng, threads, ex)
    c.tag = "modsmix/" + ",".join(f"{k}={v}" for k, v in ex.items()) + "/" + c.tag
    return c


def mods_case(rng, threads=3, extra=None):
    """A model with an infill mesh, a cutting mesh, a support blocker or modifier overlapping it."""
    gen = dict(FAST)
    if extra:
        gen.update(extra)
    h = rng.uniform(1.5, 3)
    files = {"a.stl": M.stl(M.box(40, 40, 0, 55, 55, h)), "b.stl": M.stl(M.prism(7, 4, h * 0.7, 48, 48, 0.3))}
    mode = rng.choice(["infill_mesh", "cutting_mesh", "anti_overhang_mesh", "support_mesh"])
    objs = [{"extruder": 0, "esettings": kv(gen), "model": "{D}/a.stl", "settings": ["extruder_nr=0"]},
            {"extruder": 0, "model": "{D}/b.stl", "settings": ["extruder_nr=0", f"{mode}=true", "infill_mesh_order=1", "infill_line_distance=1.0"]}]
    return Case("slice", cli([], objs, threads=threads, general=kv(gen)), files, "engine", f"mods/{mode}/h{h:.2f}")


def next_case(rng, threads=3, extra=None, n=2, modifier=None):
    """One-at-a-time printing: several mesh groups."""
    gen = dict(FAST)
    gen["print_sequence"] = "one_at_a_time"
    if extra:
        gen.update(extra)
    files, objs = {}, []
    for i in range(n):
        files[f"m{i}.stl"] = M.stl(M.prism(rng.randint(3, 8), rng.uniform(3, 6), rng.uniform(0.9, 1.6), 30 + 30 * i, 50))
        objs.append({"extruder": 0, "esettings": kv(gen), "model": f"{{D}}/m{i}.stl", "settings": ["extruder_nr=0"] + (["infill_mesh=true"] if i == modifier else []), "next": i > 0})
    return Case("slice", cli([], objs, threads=threads, general=kv(gen)), files, "engine", f"next{n}" + (f"/modifier{modifier}" if modifier is not None else ""))


# settings that can be changed one by one without making the others inconsistent
TWEAKS = {
    "layer_height": [0.15, 0.2, 0.25, 0.35], "layer_height_0": [0.2, 0.27, 0.4], "wall_line_count": [0, 1, 3, 5], "wall_line_width_0": [0.3, 0.5], "wall_line_width_x": [0.35, 0.6], "line_width": [0.35, 0.5],
    "infill_sparse_density": [0, 10, 40, 100], "infill_line_distance": [0.8, 2, 6, 0], "infill_line_width": [0.3, 0.6], "infill_pattern": ["grid", "lines", "triangles", "trihexagon", "cubic", "tetrahedral", "quarter_cubic", "concentric", "zigzag", "cross", "gyroid", "honeycomb", "octagon", "lightning", "cubicsubdiv"],
    "zig_zaggify_infill": ["true", "false"], "connect_infill_polygons": ["true", "false"], "infill_multiplier": [2, 3], "infill_wall_line_count": [1, 2], "infill_before_walls": ["true", "false"], "infill_enable_travel_optimization": ["true"], "min_infill_area": [3, 20], "infill_overlap_mm": [-0.1, 0.2], "infill_wipe_dist": [0.2], "infill_start_end_preference": ["end_random", "start_random"],
    "infill_start_move_inwards_length": [0.5], "infill_end_move_inwards_length": [0.5], "gradual_infill_steps": [1, 3], "gradual_infill_step_height": [0.4, 1.5],
    "top_layers": [0, 1, 4, 9], "bottom_layers": [0, 1, 5, 999999], "initial_bottom_layers": [0, 2], "top_bottom_pattern": ["lines", "concentric", "zigzag"], "top_bottom_pattern_0": ["lines", "concentric", "zigzag"], "skin_outline_count": [0, 2], "skin_overlap_mm": [0, 0.15], "connect_skin_polygons": ["true"], "skin_alternate_rotation": ["true"], "skin_no_small_gaps_heuristic": ["true", "false"], "skin_preshrink": [0, 1], "top_skin_preshrink": [0, 1], "bottom_skin_preshrink": [0, 1], "expand_skins_expand_distance": [0, 1.5], "top_skin_expand_distance": [0, 1], "bottom_skin_expand_distance": [0, 1], "skin_monotonic": ["true"], "small_skin_width": [0, 2],
    "roofing_layer_count": [0, 1, 2], "roofing_pattern": ["lines", "concentric"], "flooring_layer_count": [0, 1], "ironing_enabled": ["true"], "ironing_pattern": ["concentric", "zigzag"], "ironing_only_highest_layer": ["true"],
    "z_seam_type": ["back", "shortest", "sharpest_corner"], "z_seam_corner": ["z_seam_corner_none", "z_seam_corner_outer", "z_seam_corner_any", "z_seam_corner_weighted"], "z_seam_relative": ["true"], "inset_direction": ["inside_out", "outside_in"], "optimize_wall_printing_order": ["true", "false"], "alternate_extra_perimeter": ["true"], "material_alternate_walls": ["true"], "fill_outline_gaps": ["true", "false"], "wall_0_wipe_dist": [0, 0.4], "wall_0_inset": [0.05], "xy_offset": [-0.1, 0.15], "xy_offset_layer_0": [-0.2, 0.1], "hole_xy_offset": [0.1], "group_outer_walls": ["true"], "wall_distribution_count": [2, 3], "min_feature_size": [0.05, 0.3], "min_bead_width": [0.2, 0.34],
    "scarf_joint_seam_length": [3], "scarf_joint_seam_start_height_ratio": [20], "wall_overhang_angle": [30], "wall_overhang_speed_factors": ["[50,30]"], "seam_overhang_angle": [20],
    "retraction_enable": ["true", "false"], "retraction_amount": [0, 1.5, 8], "retraction_combing": ["off", "all", "noskin", "infill", "no_outer_surfaces"], "retraction_combing_max_distance": [0, 2, 30], "retraction_min_travel": [0.1, 5], "retraction_hop_enabled": ["true"], "retraction_hop": [0.5, 2], "retraction_hop_only_when_collides": ["true"], "retraction_count_max": [1, 5], "retraction_extrusion_window": [0.5, 10], "retraction_extra_prime_amount": [0.1, 0.6], "retract_at_layer_change": ["true"], "travel_retract_before_outer_wall": ["true"], "travel_avoid_other_parts": ["true", "false"], "travel_avoid_distance": [0.2, 2], "limit_support_retractions": ["true", "false"], "speed_z_hop": [5], "start_layers_at_same_position": ["true"],
    "keep_retracting_during_travel": ["true"], "retraction_during_travel_ratio": [0.5, 1], "prime_during_travel_ratio": [0.3],
    "wipe_retraction_enable": ["true"], "clean_between_layers": ["true"], "max_extrusion_before_wipe": [3], "coasting_enable": ["true"], "coasting_volume": [0.05, 0.3], "coasting_min_volume": [0.1],
    "cool_min_layer_time": [0, 5, 30], "cool_min_speed": [5, 20], "cool_lift_head": ["true"], "cool_fan_full_layer": [1, 4], "cool_min_layer_time_fan_speed_max": [20], "cool_fan_speed_0": [20], "cool_min_temperature": [180],
    "speed_slowdown_layers": [0, 3], "speed_print": [20, 120], "speed_travel": [50, 250], "speed_equalize_flow_width_factor": [0, 100], "acceleration_enabled": ["true"], "jerk_enabled": ["true"], "small_feature_max_length": [10], "small_feature_speed_factor": [40], "material_flow": [80, 115], "material_flow_layer_0": [90], "wall_min_flow": [30], "wall_min_flow_retract": ["true"],
    "adhesion_type": ["none", "skirt", "brim", "raft"], "skirt_line_count": [0, 3], "skirt_height": [2], "skirt_gap": [0.5], "skirt_brim_minimal_length": [30], "brim_width": [2, 5], "brim_gap": [0.2], "brim_outside_only": ["true", "false"], "brim_location": ["outside", "inside", "everywhere"], "raft_margin": [1, 5], "raft_airgap": [0, 0.4], "layer_0_z_overlap": [0, 0.2], "raft_surface_layers": [0, 3], "raft_interface_layers": [0, 2], "raft_smoothing": [0, 3],
    "meshfix_union_all": ["true", "false"], "meshfix_union_all_remove_holes": ["true"], "meshfix_extensive_stitching": ["true"], "meshfix_keep_open_polygons": ["true"], "meshfix_maximum_resolution": [0.05, 0.8], "meshfix_maximum_deviation": [0.005, 0.1], "meshfix_fluid_motion_enabled": ["true", "false"], "slicing_tolerance": ["inclusive", "exclusive", "middle"], "carve_multiple_volumes": ["true"], "remove_empty_first_layers": ["true", "false"],
    "support_enable": ["true"], "support_type": ["buildplate", "everywhere"], "support_pattern": ["lines", "grid", "triangles", "concentric", "zigzag", "cross", "gyroid"], "support_wall_count": [0, 1, 2], "support_interface_enable": ["true"], "support_roof_enable": ["true"], "support_bottom_enable": ["true"], "support_infill_rate": [5, 40], "support_line_distance": [1.5, 5], "support_xy_distance": [0.3, 1], "support_z_distance": [0, 0.1, 0.5], "support_top_distance": [0, 0.3], "support_bottom_distance": [0, 0.3], "support_xy_overrides_z": ["xy_overrides_z", "z_overrides_xy"], "support_join_distance": [0, 5], "support_offset": [-0.2, 0.5], "support_angle": [20, 70], "support_use_towers": ["true", "false"], "support_brim_enable": ["true"], "support_interface_pattern": ["grid", "concentric", "zigzag"], "support_connect_zigzags": ["false"], "zig_zaggify_support": ["true"], "support_infill_sparse_thickness": [0.6], "gradual_support_infill_steps": [1], "support_bottom_stair_step_height": [0, 0.6], "support_conical_enabled": ["true"], "support_fan_enable": ["true"], "support_interface_priority": ["interface_area_overwrite_support_area", "support_area_overwrite_interface_area", "interface_lines_overwrite_support_area", "support_lines_overwrite_interface_area", "nothing"],
    "draft_shield_enabled": ["true"], "draft_shield_dist": [3], "magic_fuzzy_skin_enabled": ["true"], "magic_fuzzy_skin_outside_only": ["true"], "conical_overhang_enabled": ["true"], "magic_mesh_surface_mode": ["surface", "both"], "infill_support_enabled": ["true"], "bridge_settings_enabled": ["true"], "adaptive_layer_height_enabled": ["true"], "small_hole_max_size": [3],
    "relative_extrusion": ["true"], "machine_gcode_flavor": ["RepRap (Marlin/Sprinter)", "RepRap (RepRap)", "UltiGCode", "Griffin", "Makerbot", "BFB", "MACH3", "RepRap (Volumetric)", "Repetier"], "machine_firmware_retract": ["true"], "machine_center_is_zero": ["true"],
    "material_shrinkage_percentage_xy": [101], "material_shrinkage_percentage_z": [102], "skin_edge_support_layers": [1, 2], "skin_support": ["true"], "minimum_polygon_circumference": [0, 5], "center_object": ["true"], "mesh_position_x": [7], "mesh_position_z": [0.4, -0.5],
}
MIXABLE = [n for n in PROFILES if n not in ("treesupport", "treeroof", "treelattice", "seamrandom", "spiral")]


def mix_case(rng, threads=3, height=None, extra=None, avoid=(), kinds=("prism", "box", "star", "multi", "cone", "sphere", "overhang", "dome", "steps")):
    """A random combination of settings from several profiles and single changes."""
    ex = {}
    names = rng.sample(MIXABLE, rng.choice([0, 1, 1, 2]))
    for n in names:
        ex.update(PROFILES[n][0])
    for k in rng.sample(sorted(TWEAKS), rng.choice([1, 2, 4, 8, 16])):
        if k not in avoid:
            ex[k] = str(rng.choice(TWEAKS[k]))
    ex = {k: v for k, v in ex.items() if k not in avoid}
    if extra:
        ex.update(extra)
    c = slice_case("plain", rng, threads, height or rng.uniform(0.9, 2.4), ex, rng.choice(kinds))
    c.tag = "mix/" + "+".join(names) + "/" + ",".join(f"{k}={v}" for k, v in list(ex.items())[-20:]) + "/" + c.tag
    return c


def any_case(name, rng, threads=3, extra=None):
    if name == "paint":
        return paint_case(rng, threads, extra)
    if name == "dual":
        return dual_case(rng, threads, extra)
    if name == "mods":
        return mods_case(rng, threads, extra)
    if name.startswith("treemix"):
        return support_mix_case(rng, threads, extra, "tree")
    if name.startswith("supmix"):
        return support_mix_case(rng, threads, extra)
    if name.startswith("dualmix"):
        return dual_mix_case(rng, threads, extra)
    if name.startswith("modsmix"):
        return mods_mix_case(rng, threads, extra)
    if name.startswith("mix"):
        return mix_case(rng, threads, extra=extra)
    if name == "next":
        return next_case(rng, threads, extra)
    return slice_case(name, rng, threads, extra=extra)


ALL = list(PROFILES) + ["paint", "dual", "mods", "next"]

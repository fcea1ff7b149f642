"""Inputs of whole i-PI runs: a catalogue of simulation set-ups, output lists and
forcefields, as data from which the XML files are written."""

import random

PES = "/verif/sim/simpes.py"

COORD = [
    (0.11, 0.22, 0.31),
    (0.92, 0.25, 0.43),
    (0.18, 0.97, 0.34),
    (0.21, 0.32, 1.05),
]

THERMO = {
    "langevin": "<thermostat mode='langevin'><tau units='femtosecond'>20</tau></thermostat>",
    "svr": "<thermostat mode='svr'><tau units='femtosecond'>20</tau></thermostat>",
    "pile_l": "<thermostat mode='pile_l'><tau units='femtosecond'>20</tau><pile_lambda>0.4</pile_lambda></thermostat>",
    "pile_g": "<thermostat mode='pile_g'><tau units='femtosecond'>20</tau></thermostat>",
    "gle": "<thermostat mode='gle'><A shape='(2,2)'>[0.001,0.002,-0.002,0.003]</A></thermostat>",
    "nm_gle": "<thermostat mode='nm_gle'><A shape='(%(nb)d,2,2)'>[%(nba)s]</A></thermostat>",
    "nm_gle_g": "<thermostat mode='nm_gle_g'><A shape='(%(nb)d,2,2)'>[%(nba)s]</A><tau units='femtosecond'>30</tau></thermostat>",
    "cl": "<thermostat mode='cl'><tau units='femtosecond'>20</tau><intau units='femtosecond'>400</intau><idtau units='femtosecond'>0</idtau><apat units='femtosecond'>300</apat></thermostat>",
    "ffl": "<thermostat mode='ffl'><tau units='femtosecond'>20</tau><flip>soft</flip></thermostat>",
    "multi": "<thermostat mode='multi'><thermostat mode='svr'><tau units='femtosecond'>30</tau></thermostat><thermostat mode='langevin'><tau units='femtosecond'>50</tau></thermostat></thermostat>",
}


def thermo(kind, nb=1):
    s = THERMO[kind]
    if "%(" in s:
        s = s % {"nb": nb, "nba": ",".join(["0.001,0.002,-0.002,0.003"] * nb)}
    return s


def baro(kind):
    extra = ""
    if kind in ("anisotropic", "flexible"):
        extra = "<h0 units='angstrom'>[5,0,0,0,5,0,0,0,5]</h0>"
    return (
        "<barostat mode='%s'><tau units='femtosecond'>80</tau>"
        "<thermostat mode='langevin'><tau units='femtosecond'>40</tau></thermostat>%s</barostat>"
        % (kind, extra)
    )


def dyn(mode, th=None, nb=1, bar=None, split="obabo", dt=0.5, nmts=None, fixcom=None, fix=None):
    s = "<motion mode='dynamics'>"
    if fixcom is not None:
        s += "<fixcom>%s</fixcom>" % fixcom
    if fix is not None:
        s += "<fixatoms>%s</fixatoms>" % fix
    s += "<dynamics mode='%s' splitting='%s'>" % (mode, split)
    if bar:
        s += baro(bar)
    if th:
        s += thermo(th, nb)
    s += "<timestep units='femtosecond'>%g</timestep>" % dt
    if nmts:
        s += "<nmts>%s</nmts>" % nmts
    return s + "</dynamics></motion>"


def geop(mode, extra=""):
    return (
        "<motion mode='minimize'><optimizer mode='%s'>%s<tolerances><energy>1e-9</energy><force>1e-6</force>"
        "<position>1e-6</position></tolerances></optimizer></motion>" % (mode, extra)
    )


def sysxml(motion, nb=1, T=300, P=None, forces=None, pre="", nm="", prefix="", ens="", stress=None, tag="system"):
    p = ""
    if P is not None:
        p = "<pressure units='megapascal'>%g</pressure>" % P
    if stress is not None:
        p = "<stress units='megapascal'>%s</stress>" % stress
    return (
        "<system%s>%s<initialize nbeads='%d'><file mode='xyz'> init.xyz </file>"
        "<velocities mode='thermal' units='kelvin'>%g</velocities></initialize>"
        "<forces>%s</forces>%s%s<ensemble><temperature units='kelvin'>%g</temperature>%s%s</ensemble></system>"
        % (
            " prefix='%s'" % prefix if prefix else "",
            pre,
            nb,
            T,
            forces or "<force forcefield='ff'/>",
            nm,
            motion,
            T,
            p,
            ens,
        )
    )


# name -> dict(nb, atoms, system(s) xml, props, smotion, steps, ffs)
CAT = {}


def add(name, system, nb=1, atoms="HO", props=None, traj=None, smotion="", steps=6, ffs=("ff",), threads=None, tags=(), rtol=1e-5, raw="", out="", files=None, mode=None, prng="", attrs="", cell="5.0 5.0 5.0 90 90 90"):
    CAT[name] = {
        "cell": cell,
        "raw": raw,
        "out": out,
        "files": files or {},
        "mode": mode,
        "prng": prng,
        "attrs": attrs,
        "system": system,
        "nb": nb,
        "atoms": atoms,
        "props": props or "step, time{picosecond}, conserved, potential, kinetic_md, temperature",
        "traj": traj or (["positions", "velocities"] if nb == 1 else ["positions", "velocities", "x_centroid", "v_centroid"] if nb < 4 else ["positions", "forces", "x_centroid", "kinetic_cv"]),
        "smotion": smotion,
        "steps": steps,
        "ffs": list(ffs),
        "threads": threads,
        "tags": set(tags),
        "rtol": rtol,
    }


PROP_B = "step, time{picosecond}, conserved, potential, kinetic_cv, spring"
PROP_P = "step, time{picosecond}, conserved, potential, volume, cell_h, pressure_cv"

add("nve1", sysxml(dyn("nve")), tags=("md",))
add("nve4", sysxml(dyn("nve"), 4), 4, props=PROP_B, tags=("md",))
add("nvt1", sysxml(dyn("nvt", "langevin")), tags=("md",))
add("prng2", sysxml(dyn("nvt", "langevin", 20, fixcom="False"), 20), 20, atoms="HOHO", props="step, time{picosecond}, conserved, potential, kinetic_cv, spring", traj=["x_centroid", "v_centroid"], prng=" n_threads='2'", tags=("md",), rtol=2e-3)
add("fftt", sysxml(dyn("nvt", "pile_l", 4), 4, nm="<normal_modes transform='fft' fft_threads='2' fft_float32='True'/>"), 4, props=PROP_B, tags=("md",), rtol=2e-3)
add("ffmt", sysxml(dyn("nvt", "svr")), attrs=" floatformat='%16.12e'", tags=("md",))
for th in ("langevin", "svr", "pile_l", "pile_g", "gle", "nm_gle", "nm_gle_g", "cl", "ffl", "multi"):
    nb = 3 if th != "svr" else 2
    add("nvt_" + th, sysxml(dyn("nvt", th, nb), nb), nb, props=PROP_B, tags=("md", "thermo"))
add("nvt_baoab", sysxml(dyn("nvt", "pile_g", 2, split="baoab"), 2), 2, props=PROP_B, tags=("md",))
add("nvtcc", sysxml(dyn("nvt-cc", "pile_l", 4), 4), 4, props=PROP_B, tags=("md",))
add("sc", sysxml(dyn("sc", "pile_l", 4), 4), 4, props="step, time{picosecond}, conserved, potential, kinetic_cv", tags=("md",))
add("fixatoms", sysxml(dyn("nvt", "langevin", fixcom="False", fix="[0]")), atoms="HOC", tags=("md",))
for b in ("isotropic", "flexible"):
    add("npt_" + b, sysxml(dyn("npt", "langevin", 2, bar=b, dt=0.25), 2, P=10), 2, props=PROP_P, tags=("md", "baro"))
    add("npt1_" + b, sysxml(dyn("npt", "svr", 1, bar=b, dt=0.25, split="baoab"), 1, P=10), 1, props=PROP_P, tags=("md", "baro"))
add("nst", sysxml(dyn("nst", "langevin", 1, bar="anisotropic", dt=0.25), 1, stress="[10,0,0,0,10,0,0,0,10]"), 1, props=PROP_P, tags=("md", "baro"))
add("nst_pi", sysxml(dyn("nst", "pile_l", 2, bar="anisotropic", dt=0.25, split="baoab"), 2, stress="[10,0,0,0,20,0,0,0,30]"), 2, props=PROP_P, tags=("md", "baro"))
TILT = "5.0 5.4 6.1 78 97 108"
add("tilt_nve", sysxml(dyn("nve", dt=0.25)), props=PROP_P.replace("pressure_cv", "pressure_md"), tags=("md",), cell=TILT)
add("tilt_npt", sysxml(dyn("npt", "langevin", 2, bar="flexible", dt=0.25), 2, P=10), 2, props=PROP_P, tags=("md", "baro"), cell=TILT)
add("tilt_nst", sysxml(dyn("nst", "langevin", 1, bar="anisotropic", dt=0.25), 1, stress="[10,2,1,2,20,3,1,3,30]"), 1, props=PROP_P, tags=("md", "baro"), cell=TILT)
add("scnpt", sysxml(dyn("scnpt", "pile_l", 4, bar="sc-isotropic", dt=0.25), 4, P=10), 4, props="step, time{picosecond}, conserved, potential, volume, cell_h", tags=("md", "baro"))
FMTS = "<force forcefield='ff'><mts_weights>[0,1]</mts_weights></force><force forcefield='fg' nbeads='2'><mts_weights>[1,0]</mts_weights></force>"
add("mts", sysxml(dyn("nvt", "langevin", 4, nmts="[1,3]"), 4, forces=FMTS), 4, props=PROP_B + ", pot_component(0), pot_component(1)", ffs=("ff", "fg"), tags=("md", "multiff"))
FRPC = "<force forcefield='ff'/><force forcefield='fg' nbeads='1' weight='0.5'/>"
add("rpc", sysxml(dyn("nvt", "pile_g", 4), 4, forces=FRPC), 4, props=PROP_B + ", pot_component(1)", ffs=("ff", "fg"), tags=("md", "multiff"))
add("mtsnpt", sysxml(dyn("npt", "langevin", 2, bar="isotropic", dt=0.5, nmts="[1,2]"), 2, P=10, forces=FMTS), 2, props=PROP_P, ffs=("ff", "fg"), tags=("md", "baro", "multiff"))
add("bosons", sysxml(dyn("nvt", "pile_l", 4, fixcom="False"), 4, nm="<normal_modes propagator='bab'><nmts>4</nmts><bosons>[0,1]</bosons></normal_modes>"), 4, atoms="HH", props="step, time{picosecond}, conserved, potential", tags=("md",))
add("openpath", sysxml(dyn("nvt", "pile_g", 4), 4, nm="<normal_modes><open_paths>[0]</open_paths></normal_modes>"), 4, props="step, time{picosecond}, conserved, potential, spring", tags=("md",))
add("trpmd", sysxml(dyn("nvt", "pile_l", 4), 4, nm="<normal_modes transform='fft'><frequencies style='pa-cmd'>[0.02]</frequencies></normal_modes>"), 4, props=PROP_B, tags=("md",))
add("tramp", sysxml("<motion mode='multi'>" + dyn("nvt", "langevin") + "<motion mode='t_ramp'><t_ramp><t_start units='kelvin'>200</t_start><t_end units='kelvin'>800</t_end><total_steps>10</total_steps><logscale>True</logscale></t_ramp></motion></motion>"), props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("md", "mc"))
add("pramp", sysxml("<motion mode='multi'>" + dyn("npt", "langevin", bar="isotropic", dt=0.25) + "<motion mode='p_ramp'><p_ramp><p_start units='megapascal'>10</p_start><p_end units='megapascal'>800</p_end><total_steps>10</total_steps></p_ramp></motion></motion>", P=10), props=PROP_P, tags=("md", "mc"))
add("atomswap", sysxml("<motion mode='multi'>" + dyn("nvt", "svr") + "<motion mode='atomswap'><atomswap><nxc>2</nxc><names>[H, O]</names></atomswap></motion></motion>"), atoms="HOHO", tags=("md", "mc"))
add("alchemy", sysxml("<motion mode='multi'>" + dyn("nvt", "langevin", 2, fixcom="False") + "<motion mode='alchemy'><alchemy><nxc>2</nxc><names>[H, D]</names></alchemy></motion></motion>", 2), 2, atoms="HDHD", tags=("md", "mc"))
PG = "step, potential, atom_f{au}(0)"
for g in ("bfgs", "bfgstrm", "lbfgs", "sd", "cg", "damped_bfgs"):
    add("geop_" + g, sysxml(geop(g)), props="step, potential", traj=["positions", "forces"], tags=("geop",), rtol=5e-3)


def remd(n=2, nb=1, motion=None, stride=2):
    out = ""
    for i in range(n):
        m = motion or dyn("nvt", "langevin", nb)
        out += sysxml(m, nb, T=250 + 60 * i, P=10, prefix="s%d" % i)
    return out


add("remd", remd(3), smotion="<smotion mode='remd'><remd><stride>2</stride></remd></smotion>", props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("multi", "md"))
add("remd_npt", remd(2, motion=dyn("npt", "langevin", bar="isotropic", dt=0.25)), smotion="<smotion mode='remd'><remd><stride>1</stride></remd></smotion>", props="step, time{picosecond}, conserved, potential, volume, ensemble_temperature", tags=("multi", "md", "baro"))
add("two", remd(2), props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("multi", "md"))
add("two_nve", remd(2, nb=2, motion=dyn("nve")), nb=2, props="step, time{picosecond}, conserved, potential, kinetic_cv", tags=("multi", "md", "det"))
add("remd_nve", remd(3, motion=dyn("nve")), smotion="<smotion mode='remd'><remd><stride>2</stride></remd></smotion>", props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("multi", "md", "det"))
add("piremd", remd(2, nb=2, motion=dyn("nvt", "pile_l", 2)), nb=2, smotion="<smotion mode='remd'><remd><stride>1</stride></remd></smotion>", props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("multi", "md"))


# ---- forcefields with a state or structure of their own, and biases
def direct(name, scale, threaded=False, pbc=False, more="", batch=1):
    return (
        "<ffdirect name='%s' pbc='%s' threaded='%s'><pes>custom</pes><pes_path>%s</pes_path>%s"
        "<parameters>{scale:%g%s}</parameters></ffdirect>" % (name, pbc, threaded, PES, "<batch_size>%d</batch_size>" % batch if batch > 1 else "", scale, more)
    )


LJ = "<fflj name='lj' pbc='False' threaded='%s'><parameters>{eps:0.0005, sigma:1.6, n:2}</parameters></fflj>"
DEBYE = "<ffdebye name='deb' pbc='False'><x_reference>[%s]</x_reference><hessian shape='(6,6)'>[%s]</hessian><v_reference>0.1</v_reference></ffdebye>" % (
    ",".join("%.3f" % (1.9 * x) for c in COORD[:2] for x in c),
    ",".join("%.4f" % (0.02 + 0.002 * i if i == j else 0.0003 * (i + j)) for i in range(6) for j in range(6)),
)
DMD = "<ffdmd name='dmd' pbc='False' threaded='%s'><dmd_coupling shape='(1)'>[0.02]</dmd_coupling><dmd_freq units='inversecm'>3000</dmd_freq><dmd_dt units='femtosecond'>0.5</dmd_dt><dmd_step>0</dmd_step></ffdmd>"
add("bias", sysxml(dyn("nvt", "pile_g", 2), 2, ens="<bias><force forcefield='fg'/><force forcefield='lj' nbeads='1'/></bias><bias_weights>[0.7,0.4]</bias_weights>"), 2, props=PROP_B + ", ensemble_bias", ffs=("ff", "fg"), raw=LJ % "False", tags=("md", "multiff"))
add("lj", sysxml(dyn("nvt", "langevin"), forces="<force forcefield='ff'/><force forcefield='lj'/>"), raw=LJ % "True", tags=("md", "multiff"))
add("debye", sysxml(dyn("nvt", "svr", 2), 2, forces="<force forcefield='ff'/><force forcefield='deb' nbeads='1'/>"), 2, props=PROP_B + ", pot_component(1)", raw=DEBYE, tags=("md", "multiff"))
add("hamw", remd(2, nb=1).replace("</ensemble>", "<hamiltonian_weights>[0.8,0.2]</hamiltonian_weights></ensemble>", 1).replace("<force forcefield='ff'/>", "<force forcefield='ff'/><force forcefield='fg'/>"), ffs=("ff", "fg"), props="step, time{picosecond}, conserved, potential, ensemble_temperature", smotion="<smotion mode='remd'><remd><stride>1</stride></remd></smotion>", tags=("multi", "md"))
COM = "<ffcommittee name='com' threaded='%s'>" + direct("c0", 0.8) + direct("c1", 1.1) + "%s</ffcommittee>"
add("committee", sysxml(dyn("nvt", "langevin", 2), 2, forces="<force forcefield='com'/>"), 2, props=PROP_B, traj=["positions", "velocities", "extras"], ffs=(), raw=COM % ("False", ""), tags=("md", "com"))
add("rotations", sysxml(dyn("nvt", "langevin", 1), 1, forces="<force forcefield='rot'/>"), 1, ffs=(), raw="<ffrotations name='rot' threaded='False'><grid_order>3</grid_order><inversion>True</inversion>" + direct("r0", 1.0, more=", anh:0.003") + "</ffrotations>", tags=("md", "com"))
add("dmd", sysxml(dyn("nvt", "langevin", 2), 2, ens="<bias><force forcefield='dmd'/></bias>"), 2, props=PROP_B + ", ensemble_bias", raw=DMD % "False", smotion="<smotion mode='dmd'><dmd><dmdff>[dmd]</dmdff></dmd></smotion>", tags=("md", "multiff"))
BW = "<bias><force forcefield='fg'/></bias><bias_weights>[%g]</bias_weights>"
add("remd_bias", "".join(sysxml(dyn("nvt", "gle"), 1, T=250 + 60 * i, P=10, prefix="s%d" % i, ens=BW % (0.8 - 0.6 * i)) for i in (0, 1)), ffs=("ff", "fg"), props="step, time{picosecond}, conserved, potential, ensemble_temperature, ensemble_bias", smotion="<smotion mode='remd'><remd><stride>1</stride></remd></smotion>", tags=("multi", "md"))
add("remd_flex", remd(2, motion=dyn("npt", "gle", bar="flexible", dt=0.25)), smotion="<smotion mode='remd'><remd><stride>1</stride><krescale>False</krescale></remd></smotion>", props="step, time{picosecond}, conserved, potential, volume, ensemble_temperature", tags=("multi", "md", "baro"))
# ---- other kinds of motion
NEBM = "<motion mode='neb'><fixcom>False</fixcom><neb_optimizer mode='%s'><stage>neb</stage><tangent>improved</tangent><tolerances><energy>1e-9</energy><force>1e-7</force><position>1e-7</position></tolerances><biggest_step>0.3</biggest_step>%s</neb_optimizer></motion>"
for m in ("fire", "damped_bfgs"):
    add("neb_" + m, sysxml(NEBM % (m, ""), 5).replace("<velocities mode='thermal' units='kelvin'>300</velocities>", ""), 5, props="step, potential", traj=["positions", "forces"], tags=("geop", "neb"), files={"init.xyz": "neb"}, rtol=5e-3)
MAT = ",".join("%g" % (2e-6 * (1 + i) if i == j else 1e-7) for i in range(6) for j in range(6))
HESS = ",".join("%g" % ((-0.02 if i == 0 else 0.03 + 0.004 * i) if i == j else 1e-3) for i in range(6) for j in range(6))
for m in ("fd", "nmfd", "enmfd"):
    add("vib_" + m, sysxml("<motion mode='vibrations'><fixcom>False</fixcom><vibrations mode='%s'>%s<pos_shift>0.01</pos_shift><energy_shift>1e-3</energy_shift><prefix>phon</prefix><asr>none</asr></vibrations></motion>" % (m, "<dynmat shape='(6,6)'>[%s]</dynmat>" % MAT if m != "fd" else "")), props="step, potential", traj=["positions"], steps=8, tags=("vib",))
for o, x in (("nichols", "<hessian_update>recompute</hessian_update>"), ("lbfgs", ""), ("lanczos", "<hessian_update>powell</hessian_update>")):
    add("inst_" + o, sysxml("<motion mode='instanton'><fixcom>False</fixcom><instanton mode='%s'><alt_out>0</alt_out><tolerances><energy>1e-9</energy><force>1e-8</force><position>1e-7</position></tolerances><delta>0.1</delta><opt>%s</opt>%s<hessian_asr>none</hessian_asr><hessian shape='(6,6)'>[%s]</hessian><hessian_final>false</hessian_final><biggest_step>0.05</biggest_step></instanton></motion>" % ("rate" if o != "lbfgs" else "splitting", o, x, HESS), 4).replace("<velocities mode='thermal' units='kelvin'>300</velocities>", ""), 4, props="step, potential", traj=["positions", "forces"], steps=4, tags=("inst",), rtol=5e-3)
add("eda", sysxml("<motion mode='driven_dynamics'><driven_dynamics mode='eda-nve'><timestep units='femtosecond'>0.5</timestep><efield><amp>[0.01,0.02,0]</amp><freq units='thz'>115</freq><phase>0.3</phase><peak units='femtosecond'>2</peak><sigma units='femtosecond'>3</sigma></efield><bec mode='manual' shape='(6,3)'>[0.3,0.1,0,0.1,0.4,0,0,0.05,0.5,-0.3,-0.1,0,-0.1,-0.4,0,0,-0.05,-0.5]</bec></driven_dynamics></motion>"), props="step, time{picosecond}, conserved, potential, kinetic_md, Efield", traj=["positions", "velocities", "Eforces"], tags=("md",))
add("replay", sysxml("<motion mode='replay'><file mode='xyz'>rep.xyz</file></motion>"), props="step, potential", traj=["positions", "forces"], files={"rep.xyz": "rep"}, tags=("replay",))

NOVEL = "<velocities mode='thermal' units='kelvin'>300</velocities>"
# ---- parameters away from their defaults: a checkpoint that loses one of them changes the run
GEO2 = "<motion mode='minimize'><optimizer mode='%s'%s>%s<tolerances><energy>1e-9</energy><force>1e-6</force><position>1e-6</position></tolerances></optimizer></motion>"
for n, g, a, x in (
    ("bfgs", "bfgs", "", "<biggest_step>0.01</biggest_step>"),
    ("bfls", "bfgs", "", "<ls_options><tolerance>1e6</tolerance><iter>3</iter><step>2e-2</step><adaptive>0.3</adaptive></ls_options>"),
    ("lbls", "lbfgs", "", "<ls_options><tolerance>1e6</tolerance><iter>3</iter><step>2e-2</step><adaptive>0.3</adaptive></ls_options>"),
    ("damped", "damped_bfgs", "", "<biggest_step>0.02</biggest_step>"),
    ("trm", "bfgstrm", "", "<biggest_step>0.03</biggest_step><tr_trm>[0.02]</tr_trm>"),
    ("lbfgs", "lbfgs", "", "<biggest_step>0.02</biggest_step><corrections_lbfgs>2</corrections_lbfgs><scale_lbfgs>1</scale_lbfgs>"),
    ("sd", "sd", "", "<ls_options><tolerance>0.5</tolerance><iter>30</iter><step>2e-2</step><adaptive>0.3</adaptive></ls_options>"),
    ("cg", "cg", "", "<ls_options><tolerance>0.5</tolerance><iter>30</iter><step>2e-2</step><adaptive>0.3</adaptive></ls_options>"),
):
    add("geop2_" + n, sysxml(GEO2 % (g, a, x)), props="step, potential", traj=["positions", "forces"], tags=("geop",), rtol=5e-3)
add("geop_go", sysxml("<motion mode='minimize'><optimizer mode='bfgs'><exit_on_convergence>False</exit_on_convergence><tolerances><energy>1e-7</energy><force>1e-5</force><position>1e-4</position></tolerances></optimizer></motion>"), props="step, potential", traj=["positions", "forces"], steps=14, tags=("geop",), rtol=5e-3)
BAR2 = "<barostat mode='%s'><tau units='femtosecond'>80</tau>%s%s</barostat>"
H0 = "<h0 units='angstrom'>[5,0,0,0,5,0,0,0,5]</h0>"
LT = "<thermostat mode='%s'><tau units='femtosecond'>40</tau></thermostat>"


def dyn2(mode, inner, attrs="", pre="<fixcom>False</fixcom>"):
    return "<motion mode='dynamics'>%s<dynamics mode='%s'%s><timestep units='femtosecond'>0.25</timestep>%s</dynamics></motion>" % (pre, mode, attrs, inner)


add("npt_hfix", sysxml(dyn2("npt", BAR2 % ("flexible", LT % "langevin", H0 + "<hfix>[xx, xy]</hfix>") + thermo("langevin")), P=20), props=PROP_P, tags=("md", "baro"))
add("npt_vol", sysxml(dyn2("npt", BAR2 % ("flexible", LT % "svr", H0 + "<vol_constraint>True</vol_constraint>") + thermo("svr")), P=20), props=PROP_P, tags=("md", "baro"))
add("nst_hfix", sysxml(dyn2("nst", BAR2 % ("anisotropic", LT % "langevin", "<h0 units='angstrom'>[5.2,0.1,0,0,5.1,0,0,0,5]</h0><hfix>[offdiagonal]</hfix>") + thermo("langevin")), stress="[10,3,0,3,10,0,0,0,50]"), props=PROP_P, tags=("md", "baro"))
add("gle_c", sysxml(dyn2("nvt", "<thermostat mode='gle'><A shape='(2,2)'>[0.001,0.002,-0.002,0.003]</A><C shape='(2,2)' units='kelvin'>[300,20,20,250]</C></thermostat>")), tags=("md", "thermo"))
add("pile_c", sysxml(dyn2("nvt", "<thermostat mode='pile_l'><tau units='femtosecond'>20</tau><pile_lambda>0.3</pile_lambda><pile_centroid_t units='kelvin'>450</pile_centroid_t></thermostat>", " splitting='baoab'"), 3), 3, props=PROP_B, tags=("md", "thermo"))
add("cl_id", sysxml(dyn2("nvt", "<thermostat mode='cl'><tau units='femtosecond'>20</tau><intau units='femtosecond'>50</intau><idtau units='femtosecond'>30</idtau><apat units='femtosecond'>10</apat></thermostat>")), tags=("md", "thermo"))
add("ffl_hard", sysxml(dyn2("nvt", "<thermostat mode='ffl'><tau units='femtosecond'>20</tau><flip>hard</flip></thermostat>")), tags=("md", "thermo"))
add("multi2", sysxml(dyn2("nvt", "<thermostat mode='multi'><thermostat mode='gle'><A shape='(2,2)'>[0.001,0.002,-0.002,0.003]</A><C shape='(2,2)' units='kelvin'>[300,20,20,250]</C></thermostat><thermostat mode='ffl'><tau units='femtosecond'>20</tau><flip>hard</flip></thermostat><thermostat mode='pile_l'><tau units='femtosecond'>20</tau><pile_lambda>0.3</pile_lambda><pile_centroid_t units='kelvin'>450</pile_centroid_t></thermostat></thermostat>"), 3), 3, props=PROP_B, tags=("md", "thermo"))
EF = "<efield><amp>[0.01,0.02,0]</amp><freq units='thz'>115</freq><phase>0.3</phase><peak units='femtosecond'>2</peak><sigma units='femtosecond'>3</sigma></efield><bec mode='manual' shape='(6,3)'>[0.3,0.1,0,0.1,0.4,0,0,0.05,0.5,-0.3,-0.1,0,-0.1,-0.4,0,0,-0.05,-0.4]</bec>"
add("eda_nvt", sysxml("<motion mode='driven_dynamics'><driven_dynamics mode='eda-nvt' splitting='baoab'><timestep units='femtosecond'>0.5</timestep>" + EF + thermo("langevin") + "<asr_threshold>0.2</asr_threshold></driven_dynamics></motion>"), props="step, time{picosecond}, conserved, potential, kinetic_md, Efield", traj=["positions", "velocities", "Eforces"], tags=("md",))
for m in ("poly", "crystal"):
    add("vib_" + m, sysxml("<motion mode='vibrations'><fixcom>False</fixcom><vibrations mode='%s'><pos_shift>0.02</pos_shift><output_shift>0.004</output_shift><prefix>vb</prefix><asr>%s</asr></vibrations></motion>" % ("fd", m)), atoms="OHH", props="step, potential", traj=["positions"], steps=11, tags=("vib",))
COM2 = "<ffcommittee name='com' threaded='%s'>" + direct("c0", 0.8) + direct("c1", 1.1) + direct("c2", 0.3) + "%s</ffcommittee>"
add("com_base", sysxml(dyn("nvt", "langevin", 2), 2, forces="<force forcefield='com'/>"), 2, props=PROP_B, ffs=(), raw=COM2 % ("False", "<weights>[1,1]</weights><alpha>1.7</alpha><baseline_name>c2</baseline_name><baseline_uncertainty>0.05</baseline_uncertainty><active_thresh>1e-4</active_thresh><active_output>actout</active_output>"), tags=("md", "com"))
add("rot_leb", sysxml(dyn("nvt", "langevin", 1), 1, forces="<force forcefield='rot'/>"), 1, ffs=(), raw="<ffrotations name='rot' threaded='False'><grid_order>3</grid_order><grid_mode>lebedev</grid_mode>" + direct("r0", 1.0, more=", anh:0.003") + "</ffrotations>", tags=("md", "com"))
add("lj_off", sysxml(dyn("nvt", "langevin"), forces="<force forcefield='ff'/><force forcefield='lj'/>"), raw=(LJ % "True").replace("<parameters>", "<offset>0.25</offset><parameters>"), tags=("md", "multiff"))
add("deb_off", sysxml(dyn("nvt", "svr"), forces="<force forcefield='ff'/><force forcefield='deb'/>"), raw=DEBYE.replace("<x_ref", "<offset>-0.1</offset><x_ref"), tags=("md", "multiff"))
add("ff_off", sysxml(dyn("nvt", "langevin"), forces="<force forcefield='ff'/><force forcefield='fo'/>"), raw=direct("fo", 0.4).replace("<pes>", "<offset>0.3</offset><pes>").replace("pbc='False'", "pbc='True'"), tags=("md", "multiff"))
INS2 = "<motion mode='instanton'><fixcom>False</fixcom><instanton mode='%s'><alt_out>%d</alt_out><prefix>inst</prefix><tolerances><energy>1e-9</energy><force>1e-8</force><position>1e-7</position></tolerances><delta>0.2</delta><opt>%s</opt>%s<energy_shift>0.01</energy_shift><biggest_step>0.03</biggest_step></instanton></motion>"
for n, o, m, a, x in (
    ("asr", "nichols", "rate", 2, "<hessian_asr>crystal</hessian_asr><hessian shape='(6,6)'>[%s]</hessian><hessian_final>true</hessian_final>" % HESS),
    ("nr", "NR", "rate", 2, "<hessian_asr>none</hessian_asr><hessian shape='(6,6)'>[%s]</hessian><hessian_final>false</hessian_final>" % HESS),
    ("lb", "lbfgs", "splitting", 2, "<hessian shape='(6,6)'>[%s]</hessian><hessian_final>false</hessian_final><corrections_lbfgs>3</corrections_lbfgs><scale_lbfgs>1</scale_lbfgs><ls_options><tolerance>0.4</tolerance><iter>3</iter></ls_options>" % HESS),
):
    add("inst2_" + n, sysxml(INS2 % (m, a, o, x), 4).replace(NOVEL, ""), 4, props="step, potential", traj=["positions", "forces"], steps=4, tags=("inst",), rtol=5e-3)
NEB2 = "<motion mode='neb'><fixcom>False</fixcom><neb_optimizer mode='%s'><tangent>%s</tangent><tolerances><energy>1e-9</energy><force>%s</force><position>1e-7</position></tolerances><biggest_step>0.1</biggest_step>%s</neb_optimizer></motion>"
for n, m, t, f, x in (
    ("fire", "fire", "plain", "1e-7", "<stage>neb</stage><dt_fire>0.2</dt_fire><dtmax_fire>0.25</dtmax_fire><spring><varsprings>False</varsprings><kappa>0.3</kappa><kappamax>0.5</kappamax><kappamin>0.1</kappamin></spring>"),
    ("cl2", "fire", "improved", "0.5", "<stage>neb</stage><use_climb>True</use_climb>"),
):
    add("neb2_" + n, sysxml(NEB2 % (m, t, f, x), 5).replace(NOVEL, ""), 5, props="step, potential", traj=["positions", "forces"], tags=("geop", "neb"), files={"init.xyz": "neb"}, rtol=5e-3)
add("fix_dof", sysxml(dyn2("nvt", thermo("langevin"), pre="<fixcom>False</fixcom><fixatoms_dof>[0,4]</fixatoms_dof>")), atoms="HOC", tags=("md",))
add("fix_multi", sysxml("<motion mode='multi'>" + dyn("nvt", "langevin", fixcom="False", fix="[0]") + "<motion mode='t_ramp'><t_ramp><t_start units='kelvin'>200</t_start><t_end units='kelvin'>800</t_end><total_steps>5</total_steps><current_step>0</current_step><logscale>False</logscale></t_ramp></motion></motion>"), atoms="HOC", props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("md", "mc"))
add("prampl", sysxml("<motion mode='multi'>" + dyn("npt", "langevin", bar="isotropic", dt=0.25) + "<motion mode='p_ramp'><p_ramp><p_start units='megapascal'>10</p_start><p_end units='megapascal'>800</p_end><total_steps>5</total_steps><logscale>True</logscale></p_ramp></motion></motion>", P=10), props=PROP_P, tags=("md", "mc"))
add("remd_sw", remd(2), smotion="<smotion mode='remd'><remd><stride>2</stride><swapfile>SWP</swapfile></remd></smotion>", props="step, time{picosecond}, conserved, potential, ensemble_temperature", tags=("multi", "md"))


add("pbc", sysxml(dyn("nvt", "langevin", 2, fixcom="False"), 2, forces="<force forcefield='fp'/>"), 2, ffs=(), raw=direct("fp", 0.4, pbc=True), files={"init.xyz": "off"}, props=PROP_B, tags=("md",))
add("pile_gc", sysxml(dyn2("nvt", "<thermostat mode='pile_g'><tau units='femtosecond'>20</tau><pile_lambda>0.3</pile_lambda><pile_centroid_t units='kelvin'>450</pile_centroid_t></thermostat>"), 3), 3, props=PROP_B, tags=("md", "thermo"))
NMC = "<A shape='(3,2,2)'>[%s]</A><C shape='(3,2,2)' units='kelvin'>[%s]</C>" % (",".join(["0.001,0.002,-0.002,0.003"] * 3), "300,20,20,250,500,30,30,450,520,10,10,480")
add("nm_gle_c", sysxml(dyn2("nvt", "<thermostat mode='nm_gle'>%s</thermostat>" % NMC), 3), 3, props=PROP_B, tags=("md", "thermo"))
add("nm_gle_gc", sysxml(dyn2("nvt", "<thermostat mode='nm_gle_g'>%s<tau units='femtosecond'>3</tau></thermostat>" % NMC), 3), 3, props=PROP_B, tags=("md", "thermo"))
add("eda_drv", sysxml("<motion mode='driven_dynamics'><driven_dynamics mode='eda-nve'><timestep units='femtosecond'>0.5</timestep><efield><amp>[0.01,0.02,0]</amp><freq units='thz'>115</freq><phase>0.3</phase><peak units='femtosecond'>2</peak><sigma units='femtosecond'>3</sigma></efield><bec mode='driver'/><asr_threshold>0.02</asr_threshold></driven_dynamics></motion>", forces="<force forcefield='fb'/>"), ffs=(), raw=direct("fb", 1.0, more=", bec:1"), props="step, time{picosecond}, conserved, potential, kinetic_md, Efield", traj=["positions", "velocities", "Eforces"], tags=("md",))
for m in ("fd", "nmfd", "enmfd"):
    add("via_" + m, sysxml("<motion mode='vibrations'><fixcom>False</fixcom><vibrations mode='%s'>%s<pos_shift>0.05</pos_shift><energy_shift>3e-3</energy_shift><prefix>phan</prefix><asr>none</asr></vibrations></motion>" % (m, "<dynmat shape='(6,6)'>[%s]</dynmat>" % MAT if m != "fd" else ""), forces="<force forcefield='fa'/>"), ffs=(), raw=direct("fa", 1.0, more=", anh:0.01"), props="step, potential", traj=["positions"], steps=8, tags=("vib",))
add("dbatch", sysxml(dyn("nvt", "pile_l", 4), 4, forces="<force forcefield='fc'/>"), 4, props=PROP_B, ffs=(), raw=direct("fc", 0.6, batch=2), tags=("md",))
add("lbs0", sysxml(GEO2 % ("lbfgs", "", "<corrections_lbfgs>2</corrections_lbfgs><scale_lbfgs>0</scale_lbfgs>"), forces="<force forcefield='fa'/>"), ffs=(), raw=direct("fa", 1.0, more=", anh:0.003"), props="step, potential", traj=["positions", "forces"], tags=("geop",), rtol=5e-3)
add("neb3", sysxml(NEB2 % ("fire", "improved", "0.01", "<stage>neb</stage><use_climb>True</use_climb><alpha_fire>0.3</alpha_fire><N_up_fire>1</N_up_fire><dt_fire>0.3</dt_fire><dtmax_fire>0.5</dtmax_fire>"), 5).replace(NOVEL, ""), 5, props="step, potential", traj=["positions", "forces"], steps=12, tags=("geop", "neb"), files={"init.xyz": "neb"}, rtol=5e-3)


def ffxml(name, kind="direct", threaded=False, **kw):
    """XML of one forcefield."""
    scale = {"ff": 1.0, "fg": 0.3}.get(name, 1.0)
    off = "<offset>%g</offset>" % kw["offset"] if kw.get("offset") else ""
    if kind == "direct":
        b = "<batch_size>%d</batch_size>" % kw["batch"] if kw.get("batch", 1) > 1 else ""
        return (
            "<ffdirect name='%s' pbc='%s' threaded='%s'><latency>%g</latency>%s<pes>custom</pes><pes_path>%s</pes_path>%s"
            "<parameters>{scale:%g, delay:%g, fail:%d}</parameters></ffdirect>"
            % (name, kw.get("pbc", False), threaded, kw.get("latency", 1e-3), off, PES, b, scale, kw.get("delay", 0.0), kw.get("fail", 0))
        )
    if kind == "socket":
        return (
            "<ffsocket name='%s' mode='%s' pbc='%s' matching='%s'><exit_on_disconnect>%s</exit_on_disconnect><latency>%g</latency>%s<address>%s</address>%s<timeout>%g</timeout>"
            "<slots>4</slots><consolidate_messages>%s</consolidate_messages><batch_size>%d</batch_size></ffsocket>"
            % (
                name,
                kw.get("mode", "unix"),
                kw.get("pbc", False),
                kw.get("matching", "auto"),
                kw.get("eod", False),
                kw.get("latency", 1e-3),
                off,
                kw.get("address", "sim_" + name) if kw.get("mode", "unix") != "inet" else "localhost",
                "<port>%d</port>" % kw.get("port", 31415) if kw.get("mode") == "inet" else "",
                kw.get("timeout", 0.0),
                kw.get("consolidate", True),
                kw.get("batch", 1),
            )
        )
    raise ValueError(kind)




def frames(atoms, n, step, shift=0.0):
    """Several frames, each a little displaced."""
    out = ""
    for i in range(n):
        out += "%d\n# CELL(abcABC): 5.0 5.0 5.0 90 90 90 cell{angstrom} positions{angstrom}\n" % len(atoms)
        for j, (a, c) in enumerate(zip(atoms, COORD)):
            out += "%s %f %f %f\n" % (a, c[0] + shift + step * i * (1 + 0.3 * j), c[1] - 0.5 * step * i, c[2] + 0.01 * i * i * step)
    return out


def initxyz(atoms, cell):
    s = "%d\n# CELL(abcABC): %s cell{angstrom} positions{angstrom}\n" % (len(atoms), cell)
    for a, c in zip(atoms, COORD):
        s += "%s %f %f %f\n" % ((a,) + c)
    return s


def outputs(name, o):
    """o: stride/flush of the outputs and checkpoints, or None for reference runs."""
    c = CAT[name]
    s = "<properties stride='%d' flush='%d' filename='out'> [ %s ] </properties>" % (o["ps"], o["pf"], c["props"])
    for i, t in enumerate(c["traj"]):
        s += "<trajectory stride='%d' flush='%d' filename='t%d' format='%s'> %s </trajectory>" % (o["ts"], o["tf"], i, o.get("fmt", "xyz"), t)
    s += c["out"]
    if o.get("cs"):
        s += "<checkpoint stride='%d' filename='chk' overwrite='%s'/>" % (o["cs"], o.get("over", True))
    if o.get("ref"):
        s += "<checkpoint stride='1' filename='ref' overwrite='False'/>"
    return "<output prefix='%s'>%s</output>" % (o.get("prefix", "sim"), s)


OUT1 = {"ps": 1, "pf": 1, "ts": 1, "tf": 1, "cs": 2}


def make(name, out=None, steps=None, ff=None, safe=1, total_time=None, verb="low", seed=4711, threads=None):
    """Returns {file name: text} for the set-up called name."""
    c = CAT[name]
    out = out or OUT1
    ff = ff or {}
    thr = c["threads"] if threads is None else threads
    x = "<simulation verbosity='%s'%s%s%s%s>" % (
        verb,
        c["attrs"],
        " mode='%s'" % c["mode"] if c["mode"] else "",
        " safe_stride='%d'" % safe if safe != 1 else "",
        " threading='%s'" % thr if thr is not None else "",
    )
    x += outputs(name, out)
    x += "<total_steps>%d</total_steps>" % (steps or c["steps"])
    if total_time:
        x += "<total_time>%g</total_time>" % total_time
    x += "<prng%s><seed>%d</seed></prng>" % (c["prng"], seed)
    for f in c["ffs"]:
        x += ffxml(f, **ff.get(f, ff.get("*", {})))
    x += c["raw"]
    x += c["system"]
    x += c["smotion"]
    x += "</simulation>"
    out = {"input.xml": x, "init.xyz": initxyz(c["atoms"], c["cell"])}
    for n, kind in c["files"].items():
        if kind == "neb":
            out[n] = frames(c["atoms"], c["nb"], 0.15)
        elif kind == "off":
            out[n] = frames(c["atoms"], 1, 0.0, 4.4)
        elif kind == "rep":
            out[n] = frames(c["atoms"], c["steps"] + 3, 0.04)
    return out

PROP = dict(
  title="LPC vector dequantisation yields lattice points and ordered spectral frequencies",
  statement="For every codebook number and index, the lattice dequantiser returns a point of the RE8 lattice inside its codebook's range, and an extension index selects its own coset of the scaled lattice. Spectral frequencies built from it are ordered, start at least the minimum gap above zero and keep that gap between neighbours; exactly the indices belonging to a filter are consumed and other filters are left alone.",
  over=["inputs"], all="every codebook index of the base codebooks, every extension index of the first three extension orders, every lattice vector",
  why="The streams under test contain no linear-prediction frames; there are 2^16 base codevectors alone.",
  files=["decoder/ia_core_coder_avq_dec.c", "decoder/ia_core_coder_lpc_dec.c", "decoder/ia_core_coder_avq_rom.c"],
  mech=[("lattice decoding", "decoder/ia_core_coder_avq_dec.c:ia_core_coder_rotated_gosset_mtx_dec"), ("nearest lattice point", "decoder/ia_core_coder_avq_dec.c:ia_core_coder_search_voronoi"),
        ("first approximation of spectral frequencies", "decoder/ia_core_coder_lpc_dec.c:ia_core_coder_avq_first_approx_rel")],
  note="Base codebooks Q0,Q2,Q3,Q4: proof over all indices (Q4 in 16 slices, four of them in the quick tier). Extensions of order 1..3 over all extension indices for one base codevector each. Spectral frequencies: lattice vectors are arbitrary (dequantiser replaced by a stub); starting filters are sampled in the quick tier (bounded), arbitrary in the thorough tier.")
S=["ia_core_coder_avq_rom.c","ia_core_coder_avq_dec.c"]
F=["ia_core_coder_rotated_gosset_mtx_dec"]
UNITS=[]
for q in (0,1,2,3):
  UNITS.append(dict(name="base%d"%q, entry="harness_base", harness="h/avq.c", unity=True, sources=S, functions=F, defs=["QN=%d"%q, "BASE"], unwind=10, timeout=300))
for h in range(16):
  UNITS.append(dict(name="base4_%x"%h, tier="quick" if h in (0,5,10,15) else "thorough", entry="harness_base", harness="h/avq.c", unity=True, sources=S, functions=F, defs=["QN=4", "BASE", "CBHI=%d"%h], unwind=10, timeout=300))
UNITS.append(dict(name="voronoi", harness="h/avq.c", unity=True, sources=S, functions=["ia_core_coder_search_voronoi"], unwind=10, timeout=300))
for c in (1,2,3):
  for o in (0,1):
    UNITS.append(dict(name="ext_%d_%d"%(c,3+o), entry="harness_ext", harness="h/avq.c", unity=True, sources=S, functions=F, level="bounded", bound="one base codevector, extension order %d"%c, defs=["COUNT=%d"%c,"QODD=%d"%o,"CB=%d"%(1000+o*5000)], unwind=10, timeout=300))
LS=["ia_core_coder_rom.c","ia_core_coder_avq_rom.c","ia_core_coder_basic_ops.c","ia_core_coder_lpc_dec.c"]
LK=dict(unity=True, harness="h/lsf.c", sources=LS, replace={"ia_core_coder_rotated_gosset_mtx_dec":"vc_gosset","sqrt":"vc_sqrt"}, flags=["--refine-arithmetic","--sat-solver","cadical"], unwind=18)
UNITS.append(dict(name="rel", functions=["ia_core_coder_avq_first_approx_rel"], level="bounded", bound="one starting filter, corrections within +-100", timeout=200, **LK))
UNITS.append(dict(name="rel_any", entry="harness_rel", functions=["ia_core_coder_avq_first_approx_rel"], defs=["GEN","LIM=1000000"], timeout=600, tier="thorough", **LK))
for k in (0, 123, 255):
  UNITS.append(dict(name="abs_%d"%k, entry="harness_abs", functions=["ia_core_coder_alg_vec_dequant"], defs=["IDX0=%d"%k,"LIM=100"], level="bounded", bound="first-stage codevector %d, corrections within +-100"%k, tier="quick" if k==123 else "thorough", timeout=500, **LK))
for n in (4, 2):
  for fi, k0 in ((0,0),(1,0),(1,1)):
    UNITS.append(dict(LK, name="modes%d_%d%d"%(n,fi,k0), entry="harness_sel", functions=["ia_core_coder_alg_vec_dequant"], defs=["SEL","ND=%d"%n,"FIRST=%d"%fi,"K0=%d"%k0], unwind=82, flags=["--max-field-sensitivity-array-size","400"], what="every combination of filter modes, %d filters"%n, native=False,
      replace={"ia_core_coder_avq_first_approx_abs":"stub_abs","ia_core_coder_avq_first_approx_rel":"stub_rel"}))

"""Writes properties.jsonl (kept as a script so the statements stay in one place)."""
import json
import os
DOM = ("every band-limit L>=2, directionality 1<=N<=L, J_min in [0, J), scale factor lam>1 (integer or not), "
       "|spin|<L, reality flag (spin 0), sampling scheme in {mw, mwss, dh, gl} and every band-limited signal")
B = ["s2wav/transforms/base.py", "s2wav/transforms/wavelet.py", "s2wav/transforms/wavelet_c.py",
     "s2wav/transforms/wavelet_precompute.py", "s2wav/transforms/wavelet_precompute_torch.py"]
S, F, C = "s2wav/samples.py", "s2wav/filters.py", "s2wav/transforms/construct.py"
CFG = ["inputs", "configurations"]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files[:3])} for m in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
TESTS = "The tests sample L in {8,16}, N in {2,3}, J_min=2, lam=2, spin 0 and a few random signals; "
p("C01", "Exact reconstruction: synthesis inverts analysis",
  "For every supported configuration and every band-limited signal f, synthesis(*analysis(f)) returns f to floating-point accuracy, on each back end (looped, base, JAX recursive, C/ducc0, JAX precompute, torch precompute) when the coefficients it returned are fed back unchanged. Neither call raises inside the supported domain.",
  CFG, DOM + ", on each of the six back ends.",
  TESTS + "the inverse must hold for the whole product of parameters, where band-limits, parities and edge scales interact.",
  B + [S, F, C], ["per-scale band-limit truncation LN_j", "filters_directional*", "einsum over [L0j:Lj, ::2]"], ["analysis/synthesis return values"])
p("C02", "Analysis computes the wavelet transform of the definition",
  "analysis(f) returns, for every scale j in J_min..J, the samples on the scheme's grid of W^j with Wigner coefficients 8pi^2/(2l+1) f_lm conj(psi^j_ln), and scaling coefficients with harmonic coefficients sqrt(4pi/(2l+1)) f_lm phi_l. This holds for the generated kernels, for any kernels on the same support passed as filters, and (looped/base) for spin0 != 0.",
  CFG, DOM + ", each back end, generated and arbitrary kernels.",
  TESTS + "they compare with pys2let for those only, so a normalisation, index or band-limit error tied to any other parameter value is invisible.",
  B + [S, F], ["projection einsums", "s2fft Wigner inverse calls", "scaling projection incl. Ls==1 case"], ["analysis return values"])
p("C03", "Synthesis computes the inverse transform on any coefficients",
  "synthesis(W, S) returns the samples of the signal with f_lm = sum_j sum_n W^j_lmn psi^j_ln + sqrt(4pi/(2l+1)) S_lm phi_l for arbitrary band-limited coefficients (not only those in the range of analysis), for generated and for user-supplied kernels, on each back end.",
  CFG, DOM + ", replaced by every set of band-limited wavelet and scaling coefficients.",
  "Round-trip tests only feed synthesis coefficients in the range of analysis; thresholded, filtered or simulated coefficients, which is what users synthesise, are never exercised.",
  B + [S, F], ["forward Wigner transforms with L_lower", "flm accumulation", "scaling accumulation"], ["synthesis return value"])
p("C04", "All back ends compute the same transform",
  "For the same arguments, the looped, base, JAX, C, JAX-precompute and torch-precompute back ends return the same wavelet coefficients, scaling coefficients and synthesised signals to floating-point accuracy. For HEALPix sampling (every band-limit at least 2 nside, spin 0) looped, base and both precompute back ends agree, as does the JAX back end for N=1.",
  CFG, DOM + ", all pairs of back ends; HEALPix with nside in {2,4}.",
  "Agreement is a relation between six implementations over a large parameter product; tests compare each with one reference at a handful of points and never with spin, HEALPix, or non-dyadic lam.",
  B + [S, F, C], ["six parallel implementations of one transform"], ["return values of each back end on equal inputs"])
p("C05", "flm_to_analysis equals analysis from harmonic coefficients",
  "flm_to_analysis(flm, ..., J_max) returns exactly the wavelet coefficients of scales J_min..J_max (J_max=None meaning J) that analysis returns for the spin-0 signal with harmonic coefficients flm, on the JAX, C and both precompute back ends.",
  CFG, DOM + " (spin 0), and every J_max in [J_min, J] or None.",
  "Tests call it only with J_max=None at the sampled configurations; the truncated range changes which precompute and which filter row each scale uses.",
  B[1:] + [S, C], ["J_max handling", "precompute index shift", "construct_flmn_*"], ["flm_to_analysis return value"])
p("C06", "Admissibility: generated kernels resolve the identity",
  "For every L, N, J_min, lam and spin the kernels returned by each directional filter generator satisfy 4pi/(2l+1)|phi_l|^2 + 8pi^2/(2l+1) sum_{j>=J_min} sum_m |psi^j_lm|^2 = 1 for every degree |spin| <= l < L, are finite, and vanish for l < |spin|.",
  CFG, "every L in [2,128], N<=min(L,12), J_min in [0,J), lam>1, |spin|<L, and all generators (looped, vectorised, torch, JAX).",
  "It is the identity behind perfect reconstruction and must hold per degree for every parameter set; tests only compare generators with each other or pys2let at lam 2 and small L.",
  [F, S], ["k_lam quadrature and telescoping", "tiling_direction normalisation", "spin cut"], ["filters_directional, _vectorised, _jax, using_torch"])
p("C07", "Every filter generator returns the kernels of the definition",
  "filters_axisym*, filters_directional* (looped, vectorised, JAX, torch), k_lam*, tiling_direction* and binomial_coefficient* return the scale-discretised wavelet kernels of the definition (to quadrature accuracy), including the spin0 normalisation, and the variants of a generator agree with each other for every scale j >= J_min.",
  CFG, "every L<=40, N<=12, J_min, lam>1, spin and spin0 with absolute value below L; binomials up to n=63.",
  "Tests compare variants at a few small L with lam 2 and spin0 0; quadrature end points, integer powers and spin normalisation only matter elsewhere.",
  [F, S], ["tiling_integrand, part_scaling_fn, k_lam", "tiling_direction", "_spin_normalization*"], ["generator return values"])
p("C08", "Scale arithmetic covers the kernels exactly and loses nothing",
  "J=j_max(L,lam) is the least J with lam^J >= L, and for every scale the limits (Lj, Nj, L0j) and the scaling band-limit Ls are ceil(lam^(j+1)), ceil(lam^(j-1)), ceil(lam^J_min) capped by L, with Nj of the parity of N; kernels vanish outside those limits. Hence no degree of the signal is lost by multiresolution storage, including degrees at the edges of scales.",
  CFG, "every L up to 520 (quick) or 5000 (thorough), every j, N, and lam in (1, 13] whose powers are not within rounding of a non-exact integer.",
  "Off-by-one errors and logarithm rounding show only for particular (L, lam), e.g. L an exact power of lam; tests use two dyadic L.",
  [S, F], ["j_max", "LN_j", "wav_j_bandlimit", "scal_bandlimit", "L0_j"], ["helper return values; edge-degree round trips"])
p("C09", "Coefficient containers and shape checks match the transforms",
  "analysis on each back end returns J-J_min+1 arrays of shape [2Nj-1, ntheta(Lj), nphi(Lj)] and scaling coefficients of the shape of band-limit Ls for the sampling scheme, and construct_f/flmn/flm (numpy, JAX, torch), f_wav_j, f_scal and flmn_wav_j describe exactly these. wavelet_shape_check accepts exactly these shapes and rejects every other.",
  CFG, DOM + ", multiresolution on and off, HEALPix for the helpers, and every single-coordinate shape perturbation.",
  "Shapes depend on five parameters plus resolution mode; tests look at few and never at shapes that should be rejected.",
  [S] + B, ["f_wav_j, f_scal, construct_*", "wavelet_shape_check", "Ls==1 edge case"], ["shapes of returned arrays", "AssertionError or not"])
p("C10", "Energy conservation (tight frame)",
  "For every signal the sum over scales of the SO(3) energy of the wavelet coefficients plus the energy of the scaling coefficients equals the energy of the signal, and the energy of each scale is the share its kernel prescribes; every returned array is the sampling of a function within the advertised band-limits.",
  CFG, DOM + ", each back end.",
  "A Parseval identity over all signals and parameters; a gain error that synthesis undoes is invisible to round-trip tests.",
  B + [F], ["normalisation factors 8pi^2/(2l+1), sqrt(4pi/(2l+1))"], ["analysis return values"])
p("C11", "Transforms are linear",
  "analysis and synthesis on every back end are linear: they respect sums and scalar multiples (complex scalars when reality is off), map zero to exactly zero, and scales superpose, at every amplitude from 1e-12 to 1e12.",
  CFG, DOM + ", every pair of signals or coefficient sets and all scalars.",
  "Linearity is a relation over triples of executions; no test evaluates it.",
  B, ["in-place accumulation", "real/complex branches"], ["pairs of outputs"])
p("C12", "Gradients are exact adjoints",
  "Reverse-mode derivatives through analysis, synthesis and flm_to_analysis (JAX recursive, JAX precompute, torch, and C with mw/mwss/gl and reality off) equal the adjoint of the linear map, forward-mode derivatives of the JAX precompute back end equal the map itself, and gradients with respect to the filters (torch and JAX precompute) match the exact change of output.",
  CFG, DOM + " and every cotangent direction.",
  "Tests check gradients at L=8, N=3 for one real-valued loss; in-place or masked updates break autodiff only in some scales and parameter combinations.",
  B[1:], ["functional updates .at[].add", "torch in-place updates on constructed tensors", "custom vjp of the C transforms"], ["jax.vjp, jax.jvp, torch.autograd"])
p("C13", "The reality flag changes nothing but the cost",
  "For a real spin-0 signal, analysis with reality=True and reality=False return the same, numerically real, coefficients, and for real coefficients synthesis with either setting returns the same real signal, on every back end.",
  CFG, DOM + " restricted to real signals and real coefficients.",
  "Conjugate-symmetry shortcuts are separate code paths per back end and parity of N; tests use them at two configurations.",
  B + [C], ["reality branches", "m,n symmetry writes"], ["pairs of outputs"])
p("C14", "Multiresolution and full-resolution storage are equivalent",
  "In the looped and base back ends the coefficients returned with multiresolution=True and multiresolution=False are samplings of the same functions, full-resolution analysis/synthesis is also an exact inverse pair, and synthesis gives the same signal whichever resolution the same coefficients are stored at.",
  CFG, DOM + ", looped and base back ends.",
  "Equivalence is between two storage layouts for all scales and signals; tests only check each reconstructs for sampled configurations.",
  [B[0], S], ["multiresolution branches of LN_j, scal_bandlimit, construct_*"], ["pairs of outputs"])
p("C15", "Rotation equivariance",
  "Rotating the signal by any rotation rotates every wavelet coefficient function W^j and the scaling coefficients by the same rotation: W[R f](rho) = W[f](R^-1 rho), for azimuthal and general rotations.",
  CFG, DOM + " and every rotation in SO(3), each back end.",
  "A defining symmetry quantified over all rotations and signals; no test rotates anything.",
  B, ["index alignment of m across band-limits", "kernel placement"], ["pairs of outputs"])
p("C16", "Transforms are pure and history independent",
  "No transform or generator modifies its arguments (signal, coefficients, filters, precomputes) or returns arrays aliasing them or shared with other calls, and the result depends only on the arguments: not on earlier calls with the same or other configurations, memory layout of the input, or calls running in other threads.",
  ["histories", "schedules", "inputs"], DOM + ", every sequence of calls, memory layout and interleaving of threads.",
  "A property of call histories and aliasing; each test makes one fresh call.",
  B + [F, S, C], ["in-place array updates", "static-argument caching of jit", "shared kernels"], ["argument bytes before/after", "results across interleaved calls"],
  [{"name": "jit caches", "meaning": "compiled transforms keyed by static arguments"}, {"name": "returned buffers", "meaning": "arrays handed to the caller"}])
p("C17", "Precomputed kernels are equivalent and reusable",
  "Passing precomputes from generate_wigner_precomputes to the JAX transforms gives the same results as passing none, generate_full_precomputes yields the same kernels for JAX and torch and with nospherical, and one set of precomputes serves any number of signals, coefficient sets and filters of that configuration with correct results.",
  ["histories", "configurations", "inputs"], DOM + ", every sequence of transforms sharing precomputes.",
  "Tests always regenerate kernels per call at dyadic spin-0 configurations; indexing of kernels per scale and direction depends on J_min, lam, spin and sampling.",
  [C] + B[1:], ["kernel list order and last-scale reuse", "forward/inverse flag", "spin of spherical kernels"], ["results with and without precomputes"])
p("C18", "Unsupported requests are refused",
  "Filter generators raise ValueError for every J_min outside [0, J); base and looped synthesis refuse coefficients whose number or shape does not match the configuration or resolution; precompute transforms raise ValueError without precomputes; the C back end refuses HEALPix; unknown sampling schemes are refused. Valid boundary values are accepted.",
  CFG, "every J_min outside [0,J), every mis-shaped coefficient set, missing precomputes, HEALPix on the C back end and unknown sampling names.",
  "Rejection must hold for every invalid request; tests contain one J_min case.",
  [F, S] + B, ["J_min validation", "wavelet_shape_check calls", "precomps None checks"], ["exceptions"])
p("C19", "Scattering flag returns the modulus of the wavelet coefficients",
  "base.analysis(..., scattering=True) returns the pointwise modulus of the wavelet coefficients of every scale and unchanged scaling coefficients, and scattering=False is the plain transform.",
  CFG, DOM + ", multiresolution on and off.",
  "No test uses the flag; it must hold at every scale and configuration.",
  [B[0]], ["np.abs branch in base.analysis"], ["pairs of outputs"])
p("C20", "Steerability: N orientations determine all",
  "At every scale the dependence of the coefficients on orientation contains only frequencies |n| < Nj with the parity of N-1, so W(gamma+pi) = (-1)^(N-1) W(gamma), and the value at any orientation is the fixed linear combination of Nj equispaced basis orientations.",
  CFG, DOM + ", each back end and every scale.",
  "A structural identity across all positions, scales and parities of N; no test evaluates orientation spectra.",
  B + [F, S], ["n stride 2 in projections", "Nj parity rule", "tiling_direction parity"], ["analysis return values"])
p("C21", "Localisation in scale",
  "A signal of a single degree l appears only in the scales j with lam^(j-1) < l < lam^(j+1) and in the scaling coefficients only if l < lam^J_min, hence in at most two consecutive scales (or one scale and the scaling coefficients), and it does appear wherever the kernel is non-negligible.",
  CFG, DOM + " restricted to single-degree signals, in particular degrees at powers of lam.",
  "Needs single-degree probes at every scale edge for every lam; leakage of this kind cancels in round trips.",
  B + [F, S], ["k_lam thresholds", "scale index of filters and coefficients"], ["analysis return values"])
p("C22", "Defaults and aliases mean what the documentation says",
  "Omitting filters uses the generated kernels of the same L, N, J_min, lam and spin; omitting any other optional argument of a transform or helper equals passing its documented default (N=1, J_min=0, lam=2, spin=0, sampling mw, reality False, multiresolution True for transforms and False for helpers); and each top-level alias is the back end its name says.",
  CFG, "every transform, helper and alias, every L, with optional arguments omitted.",
  "Tests always spell out their arguments; defaults and aliases are exercised by users only.",
  B + [S, F, "s2wav/__init__.py"], ["default arguments", "filters is None branches", "__init__ aliases"], ["results with omitted arguments"])
p("C23", "JAX transforms compose with jit and vmap",
  "The recursive and precompute JAX transforms (analysis, synthesis, flm_to_analysis) can be called inside jax.jit and jax.vmap, with signals, coefficients and filters as traced or batched arguments, and return for every batch entry exactly what the definition prescribes for that entry.",
  CFG, DOM + ", both JAX back ends, batches of signals, coefficient sets and filters.",
  "Traceability must hold along every branch (edge cases such as Ls = 1, last scale, reality); tests call the functions directly only.",
  [B[1], B[3]], ["static arguments of jit", "filters and precomps as traced arguments", "edge-case branches"], ["results under jit and vmap"])
p("C24", "The form of a call does not matter",
  "Results do not depend on how a request is written: positional arguments in the documented order or keywords, Python or numpy scalars, lam as 2, 2.0 or numpy float, coefficients as list or tuple, filters as tuple or list, numpy or JAX arrays as input of the numpy, JAX and C back ends; and single-precision or integer input to the numpy back ends is transformed in double precision.",
  CFG, DOM + ", each back end and every spelling of the same request.",
  "Every test spells its calls one way; static-argument handling, dtype inference from the input and parameter order only matter for the other spellings.",
  B + [S, F], ["parameter order", "dtype of work arrays", "static_argnums / jit hashing"], ["pairs of outputs"])
p("C25", "HEALPix maps get the definition on their quadrature transform",
  "For sampling='healpix' with every band-limit at least 2 nside, analysis of any pixel map equals the definition of C02 applied to the HEALPix quadrature harmonic transform of the map, sampled on HEALPix pixels of the same nside at every scale, and synthesis of any pixel coefficients is likewise the definition of C03; for looped and base (any spin, both resolutions) and both precompute back ends (spin 0).",
  CFG, "every L, N, J_min, lam, nside with all band-limits >= 2 nside, reality on and off, arbitrary (also not band-limited) maps.",
  "HEALPix has no exact inverse, so round trips say nothing; tests use one nside with a loose comparison or none.",
  B[:1] + B[3:] + [S, C], ["nside plumbing through every s2fft call", "HEALPix branches of f_scal, f_wav_j"], ["analysis and synthesis return values"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        fh.write(json.dumps(x) + "\n")

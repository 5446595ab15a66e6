// generated by fieldgen.py
struct T_M { typedef LatticeColorMatrix type; };
struct T_V { typedef LatticeColorVector type; };
struct T_F { typedef LatticeFermion type; };
struct T_H { typedef LatticeHalfFermion type; };
struct T_P { typedef LatticePropagator type; };
struct T_C { typedef LatticeComplex type; };
struct T_R { typedef LatticeReal type; };
struct T_I { typedef LatticeInteger type; };
struct T_B { typedef LatticeBoolean type; };
struct T_S { typedef LatticeSpinMatrix type; };
struct T_W { typedef LatticeSpinVector type; };
struct T_U { typedef LatticeInteger type; };
struct T_CS { typedef LatticeColorVectorSpinMatrix type; };
struct T_MD { typedef LatticeColorMatrixD type; };
struct T_VD { typedef LatticeColorVectorD type; };
struct T_FD { typedef LatticeFermionD type; };
struct T_CD { typedef LatticeComplexD type; };
struct T_RD { typedef LatticeRealD type; };
struct T_PD { typedef LatticePropagatorD type; };
struct T_MF { typedef LatticeColorMatrixF type; };
struct T_VF { typedef LatticeColorVectorF type; };
struct T_FF { typedef LatticeFermionF type; };
struct T_CF { typedef LatticeComplexF type; };
struct T_RF { typedef LatticeRealF type; };
struct T_PF { typedef LatticePropagatorF type; };
struct T_m { typedef ColorMatrix type; };
struct T_v { typedef ColorVector type; };
struct T_f { typedef Fermion type; };
struct T_p { typedef Propagator type; };
struct T_c { typedef Complex type; };
struct T_r { typedef Real type; };
struct T_i { typedef Integer type; };
struct T_b { typedef Boolean type; };
struct T_s { typedef SpinMatrix type; };
struct T_w { typedef SpinVector type; };
struct T_rd { typedef RealD type; };
struct T_cd { typedef ComplexD type; };
struct T_rf { typedef RealF type; };
struct T_cf { typedef ComplexF type; };
struct T_u { typedef Integer type; };
struct T_md { typedef ColorMatrixD type; };
struct T_h { typedef HalfFermion type; };

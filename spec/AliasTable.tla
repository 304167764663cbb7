---------------------------- MODULE AliasTable ----------------------------
(* The documented names of every quantity: names in one row are aliases.      *)
Known == <<
  {"B", "b mag", "b_mag", "bmag", "|B|"},
  {"BV", "bv", "bv_mag", "|BV|", "|bv|"},
  {"Bp", "Bphi", "bp", "bphi"},
  {"Br", "br"},
  {"Bt", "Btheta", "bt", "btheta"},
  {"Dist", "dist", "f"},
  {"E", "egrid", "energies", "energy"},
  {"Flux", "J", "J(E)", "flux", "j", "j(E)"},
  {"P", "phi"},
  {"R", "r", "radius"},
  {"R_g", "Rg", "rigidity"},
  {"Rho", "rho"},
  {"T", "theta"},
  {"V", "v", "v mag", "v_mag", "vmag", "|V|", "|v|"},
  {"Vp", "Vphi", "vp", "vphi"},
  {"Vpara", "v_para", "vpara"},
  {"Vperp", "v_perp", "vperp"},
  {"Vr", "vr"},
  {"Vt", "Vtheta", "vt", "vtheta"},
  {"X", "x"},
  {"Y", "y"},
  {"Z", "z"},
  {"acceleration rate", "acceleration_rate"},
  {"angle", "flow angle", "flow_angle"},
  {"average energy", "average_energy"},
  {"charge", "q"},
  {"density ratio", "density_ratio", "n2/n1", "n_2/n_1"},
  {"div V", "div v", "div(V)", "div(v)", "divV", "div_v", "divv"},
  {"energy density", "energy_density"},
  {"fluence"},
  {"integral flux", "integral_flux"},
  {"isodist", "isotropic distribution", "isotropic_distribution"},
  {"m", "mass"},
  {"mean free path", "mean_free_path", "mfp"},
  {"mu", "mus", "pitch angle", "pitch angles", "pitch-angle", "pitch-angle cosine", "pitch-angle cosines", "pitch-angles"},
  {"shell", "shells"},
  {"speed", "vgrid", "vparticle"},
  {"t", "time", "times"}
>>
=============================================================================

----------------------------- MODULE ParamTable -----------------------------
(* The documented run parameters: type, unit, aliases and default of each.     *)
(* A default is an arithmetic tree over literals, other parameters and the     *)
(* simulation's constants.                                                     *)
EXTENDS Sequences
Table == <<
 [name |-> "FailModeDump", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "aziSunStart", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "boundaryFunctAmplitude", type |-> "float", unit |-> "1 / (cm^2 * s * sr * (MeV/nuc))", aliases |-> <<"J0">>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "boundaryFunctBeta", type |-> "float", unit |-> "1", aliases |-> <<"beta">>, default |-> [op |-> "num", id |-> "1.7"]],
 [name |-> "boundaryFunctEcutoff", type |-> "float", unit |-> "MeV", aliases |-> <<"E0">>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "boundaryFunctGamma", type |-> "float", unit |-> "1", aliases |-> <<"gamma">>, default |-> [op |-> "num", id |-> "2.0"]],
 [name |-> "boundaryFunctXi", type |-> "float", unit |-> "1", aliases |-> <<"xi">>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "boundaryFunctionInitDomain", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "charge", type |-> "list", unit |-> "e", aliases |-> <<>>, default |-> [op |-> "list", ids |-> <<"1.0">>]],
 [name |-> "checkSeedPopulation", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "clusterNodes", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "dsh_hel_min", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "2.5e-4"]],
 [name |-> "dsh_min", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "5.0e-5"]],
 [name |-> "dumpFreq", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "dumpOnAbort", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "eMax", type |-> "float", unit |-> "MeV/nuc", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1000.0"]],
 [name |-> "eMin", type |-> "float", unit |-> "MeV/nuc", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "epCalcStartTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "par", name |-> "simStartTime"]],
 [name |-> "epEquilibriumCalcDuration", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "epremDomain", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "epremDomainOutputTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "fieldAligned", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "flowMag", type |-> "float", unit |-> "km/s", aliases |-> <<>>, default |-> [op |-> "num", id |-> "400.0e5"]],
 [name |-> "fluxLimiter", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "focusingLimit", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "gammaEhigh", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "gammaElow", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "idealShock", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "idealShockInitTime", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "par", name |-> "simStartTime"]],
 [name |-> "idealShockJump", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "4.0"]],
 [name |-> "idealShockPhi", type |-> "float", unit |-> "rad", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "idealShockScaleLength", type |-> "float", unit |-> "au", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0046491"]],
 [name |-> "idealShockSharpness", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "idealShockSpeed", type |-> "float", unit |-> "km/s", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1500e5"]],
 [name |-> "idealShockTheta", type |-> "float", unit |-> "rad", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.570796"]],
 [name |-> "idealShockWidth", type |-> "float", unit |-> "rad", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "idw_p", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "3.0"]],
 [name |-> "kperxkpar", type |-> "float", unit |-> "1", aliases |-> <<"kper_kpar", "kper/kpar", "kper / kpar">>, default |-> [op |-> "num", id |-> "0.01"]],
 [name |-> "lamo", type |-> "float", unit |-> "au", aliases |-> <<"lam0", "lambda0">>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "masCorRotateFake", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masCouple", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masCoupledTime", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "masDigits", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "3"]],
 [name |-> "masDirectory", type |-> "str", unit |-> "", aliases |-> <<>>, default |-> [op |-> "text", t |-> ""]],
 [name |-> "masHelCouple", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masHelDigits", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "3"]],
 [name |-> "masHelDirectory", type |-> "str", unit |-> "", aliases |-> <<>>, default |-> [op |-> "text", t |-> ""]],
 [name |-> "masHelNumFiles", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masHelRadialMax", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masHelRadialMin", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masInitFromOuterBoundary", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "2"]],
 [name |-> "masInitMonteCarlo", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masInitRadius", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masInitTimeStep", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.000011574074074"]],
 [name |-> "masNumFiles", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "masRadialMax", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masRadialMin", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masRotateSolution", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "masStartTime", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "masSteadyState", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "masTriLinear", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "masVmin", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "50.0e5"]],
 [name |-> "mass", type |-> "list", unit |-> "nucleon", aliases |-> <<>>, default |-> [op |-> "list", ids |-> <<"1.0">>]],
 [name |-> "mfpRadialPower", type |-> "float", unit |-> "1", aliases |-> <<"mfp_radial_power">>, default |-> [op |-> "num", id |-> "2.0"]],
 [name |-> "mhdBAu", type |-> "float", unit |-> "G", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.60e-5"]],
 [name |-> "mhdDensityAu", type |-> "float", unit |-> "cm^-3", aliases |-> <<>>, default |-> [op |-> "num", id |-> "8.30"]],
 [name |-> "minInjectionEnergy", type |-> "float", unit |-> "MeV", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.01"]],
 [name |-> "nodeClusterPhi", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "nodeClusterTheta", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.570796"]],
 [name |-> "nodeClusterWidth", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "numColumnsPerFace", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "2"]],
 [name |-> "numEnergySteps", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "20"]],
 [name |-> "numEpSteps", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "30"]],
 [name |-> "numMuSteps", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "20"]],
 [name |-> "numNodesPerStream", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "nprocs"]],
 [name |-> "numObservers", type |-> "int", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "numRowsPerFace", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "2"]],
 [name |-> "numSpecies", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "obsPhi", type |-> "list", unit |-> "rad", aliases |-> <<>>, default |-> [op |-> "list", ids |-> <<"0">>]],
 [name |-> "obsR", type |-> "list", unit |-> "au", aliases |-> <<>>, default |-> [op |-> "list", ids |-> <<"0">>]],
 [name |-> "obsTheta", type |-> "list", unit |-> "rad", aliases |-> <<>>, default |-> [op |-> "list", ids |-> <<"0">>]],
 [name |-> "omegaSun", type |-> "float", unit |-> "rad * cm / (au * s)", aliases |-> <<>>, default |-> [op |-> "mul", x |-> [op |-> "div", x |-> [op |-> "num", id |-> "0.004144"], y |-> [op |-> "const", name |-> "MAS_TIME_NORM"]], y |-> [op |-> "const", name |-> "TAU"]]],
 [name |-> "outputFloat", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "outputRestart", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "parallelFlow", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "pointObserverOutput", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "pointObserverOutputTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "preEruptionDuration", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "rScale", type |-> "float", unit |-> "au", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.005"]],
 [name |-> "rigidityPower", type |-> "float", unit |-> "1", aliases |-> <<"rigidity_power">>, default |-> [op |-> "third"]],
 [name |-> "saveRestartFile", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "seedFunctionTest", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "shockDetectPercent", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "shockInjectionFactor", type |-> "float", unit |-> "1", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "shockSolver", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "simStartTime", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "simStopTime", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "add", x |-> [op |-> "par", name |-> "simStartTime"], y |-> [op |-> "par", name |-> "tDel"]]],
 [name |-> "streamFluxOutput", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "streamFluxOutputTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "subTimeCouple", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "tDel", type |-> "float", unit |-> "day", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.01041666666667"]],
 [name |-> "unifiedOutput", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "unifiedOutputTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "unstructuredDomain", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "unstructuredDomainOutputTime", type |-> "float", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "useAdiabaticChange", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useAdiabaticFocus", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useBoundaryFunction", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useDrift", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "useEPBoundary", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useMasSteadyStateDt", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useParallelDiffusion", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "1"]],
 [name |-> "useShellDiffusion", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "useStochastic", type |-> "int", unit |-> "", aliases |-> <<>>, default |-> [op |-> "num", id |-> "0"]],
 [name |-> "warningsFile", type |-> "str", unit |-> "", aliases |-> <<>>, default |-> [op |-> "text", t |-> "warningsXXX.txt"]]
>>
(* Parameters of the analysis itself, which no configuration file sets.        *)
Local == <<
 [name |-> "minimum_energy", type |-> "float", unit |-> "MeV", aliases |-> <<"Emin", "minimum energy">>, default |-> [op |-> "num", id |-> "0.0"]],
 [name |-> "reference energy", type |-> "float", unit |-> "MeV", aliases |-> <<"energy0">>, default |-> [op |-> "num", id |-> "1.0"]],
 [name |-> "reference radius", type |-> "float", unit |-> "au", aliases |-> <<"r0">>, default |-> [op |-> "num", id |-> "1.0"]]
>>
(* The simulation's constants that defaults and users may refer to.             *)
Constants == [n \in {"MAS_TIME_NORM", "TAU", "AU", "C", "PI", "MP", "BADVALUE", "VERYSMALL", "RSUN", "RSAU"} |->
  CASE n = "TAU" -> [op |-> "div", x |-> [op |-> "const", name |-> "AU"], y |-> [op |-> "const", name |-> "C"]]
    [] n = "RSAU" -> [op |-> "div", x |-> [op |-> "const", name |-> "RSUN"], y |-> [op |-> "const", name |-> "AU"]]
    [] n = "MAS_TIME_NORM" -> [op |-> "num", id |-> "1445.87003080685"]
    [] n = "AU" -> [op |-> "num", id |-> "1.495978707e13"]
    [] n = "C" -> [op |-> "num", id |-> "2.99792458e10"]
    [] n = "PI" -> [op |-> "num", id |-> "3.1415926535897932"]
    [] n = "MP" -> [op |-> "num", id |-> "1.6726e-24"]
    [] n = "BADVALUE" -> [op |-> "num", id |-> "1.0e33"]
    [] n = "VERYSMALL" -> [op |-> "num", id |-> "1.0e-33"]
    [] n = "RSUN" -> [op |-> "num", id |-> "6.96e10"]
]
=============================================================================

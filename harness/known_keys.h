// The input keys of SMASH as documented in the user guide: labels, status,
// default ('-' not checked, REQ: has to be given, DEP: depends on other keys).
#pragma once
struct KnownKey {
  const char *labels, *status, *def;
};
// clang-format off
inline const KnownKey kKnownKeys[] = {
    {"particles", "valid", "REQ"},
    {"decaymodes", "valid", "REQ"},
    {"General|End_Time", "valid", "REQ"},
    {"General|Modus", "valid", "REQ"},
    {"General|Nevents", "valid", "REQ"},
    {"General|Randomseed", "valid", "REQ"},
    {"General|Minimum_Nonempty_Ensembles|Maximum_Ensembles_Run", "valid", "REQ"},
    {"General|Minimum_Nonempty_Ensembles|Number", "valid", "REQ"},
    {"General|Delta_Time", "valid", "=1"},
    {"General|Derivatives_Mode", "valid", "=Covariant Gaussian"},
    {"General|Discrete_Weight", "valid", "=0.33333333333333331"},
    {"General|Ensembles", "valid", "=1"},
    {"General|Expansion_Rate", "valid", "=0.10000000000000001"},
    {"General|Field_Derivatives_Mode", "valid", "=Chain Rule"},
    {"General|Gauss_Cutoff_In_Sigma", "valid", "=4"},
    {"General|Gaussian_Sigma", "valid", "=1"},
    {"General|Metric_Type", "valid", "=NoExpansion"},
    {"General|Rest_Frame_Density_Derivatives_Mode", "removed", "-"},
    {"General|Smearing_Mode", "valid", "=Covariant Gaussian"},
    {"General|Testparticles", "valid", "=1"},
    {"General|Time_Step_Mode", "valid", "=Fixed"},
    {"General|Triangular_Range", "valid", "=2"},
    {"General|Use_Grid", "valid", "=true"},
    {"Logging|default", "valid", "=ALL"},
    {"Logging|Box", "valid", "DEP"},
    {"Logging|Collider", "valid", "DEP"},
    {"Logging|Configuration", "valid", "DEP"},
    {"Logging|Experiment", "valid", "DEP"},
    {"Logging|GrandcanThermalizer", "valid", "DEP"},
    {"Logging|InitialConditions", "valid", "DEP"},
    {"Logging|List", "valid", "DEP"},
    {"Logging|Main", "valid", "DEP"},
    {"Logging|Output", "valid", "DEP"},
    {"Logging|Sphere", "valid", "DEP"},
    {"Logging|Action", "valid", "DEP"},
    {"Logging|Clock", "valid", "DEP"},
    {"Logging|CrossSections", "valid", "DEP"},
    {"Logging|DecayModes", "valid", "DEP"},
    {"Logging|Density", "valid", "DEP"},
    {"Logging|Distributions", "valid", "DEP"},
    {"Logging|FindScatter", "valid", "DEP"},
    {"Logging|Fpe", "valid", "DEP"},
    {"Logging|Grid", "valid", "DEP"},
    {"Logging|HyperSurfaceCrossing", "valid", "DEP"},
    {"Logging|InputParser", "valid", "DEP"},
    {"Logging|Lattice", "valid", "DEP"},
    {"Logging|Nucleus", "valid", "DEP"},
    {"Logging|ParticleType", "valid", "DEP"},
    {"Logging|PauliBlocking", "valid", "DEP"},
    {"Logging|Potentials", "valid", "DEP"},
    {"Logging|Propagation", "valid", "DEP"},
    {"Logging|Pythia", "valid", "DEP"},
    {"Logging|Resonances", "valid", "DEP"},
    {"Logging|RootSolver", "valid", "DEP"},
    {"Logging|ScatterAction", "valid", "DEP"},
    {"Logging|ScatterActionMulti", "valid", "DEP"},
    {"Logging|Tmn", "valid", "DEP"},
    {"Version", "removed", "REQ"},
    {"Collision_Term|Additional_Elastic_Cross_Section", "valid", "=0"},
    {"Collision_Term|Collision_Criterion", "valid", "=Covariant"},
    {"Collision_Term|Cross_Section_Scaling", "valid", "=1"},
    {"Collision_Term|Elastic_Cross_Section", "valid", "=-1"},
    {"Collision_Term|Elastic_NN_Cutoff_Sqrts", "valid", "=1.98"},
    {"Collision_Term|Total_Cross_Section_Strategy", "valid", "=TopDownMeasured"},
    {"Collision_Term|Pseudoresonance", "valid", "=LargestFromUnstable"},
    {"Collision_Term|Fixed_Min_Cell_Length", "valid", "=2.5"},
    {"Collision_Term|Force_Decays_At_End", "valid", "=true"},
    {"Collision_Term|Ignore_Minimum_Decay_Width_For_Decays_At_The_End", "valid", "=false"},
    {"Collision_Term|Include_Weak_And_EM_Decays_At_The_End", "removed", "=false"},
    {"Collision_Term|Decay_Initial_Particles", "valid", "=true"},
    {"Collision_Term|Included_2to2", "valid", "=1111111111"},
    {"Collision_Term|Isotropic", "valid", "=false"},
    {"Collision_Term|Maximum_Cross_Section", "valid", "DEP"},
    {"Collision_Term|Multi_Particle_Reactions", "valid", "=0000"},
    {"Collision_Term|NNbar_Treatment", "valid", "=strings"},
    {"Collision_Term|No_Collisions", "valid", "=false"},
    {"Collision_Term|Only_Warn_For_High_Probability", "valid", "=false"},
    {"Collision_Term|Resonance_Lifetime_Modifier", "valid", "=1"},
    {"Collision_Term|Spin_Interactions", "valid", "=Off"},
    {"Collision_Term|Strings", "valid", "DEP"},
    {"Collision_Term|Strings_with_Probability", "valid", "=true"},
    {"Collision_Term|Two_to_One", "valid", "=true"},
    {"Collision_Term|Use_AQM", "valid", "=true"},
    {"Collision_Term|Pauli_Blocking|Gaussian_Cutoff", "valid", "=2.2000000000000002"},
    {"Collision_Term|Pauli_Blocking|Momentum_Averaging_Radius", "valid", "=0.080000000000000002"},
    {"Collision_Term|Pauli_Blocking|Spatial_Averaging_Radius", "valid", "=1.8600000000000001"},
    {"Collision_Term|String_Transition|KN_Offset", "valid", "=15.15"},
    {"Collision_Term|String_Transition|PiPi_Offset", "valid", "=1.1200000000000001"},
    {"Collision_Term|String_Transition|Sqrts_Lower", "valid", "=0.90000000000000002"},
    {"Collision_Term|String_Transition|Sqrts_Range_NN", "valid", "=3.5,4.5"},
    {"Collision_Term|String_Transition|Sqrts_Range_Npi", "valid", "=1.9,2.2"},
    {"Collision_Term|String_Transition|Sqrts_Range_Width", "valid", "=1"},
    {"Collision_Term|String_Parameters|Diquark_Supp", "valid", "=0.035999999999999997"},
    {"Collision_Term|String_Parameters|Form_Time_Factor", "valid", "=1"},
    {"Collision_Term|String_Parameters|Formation_Time", "valid", "=1"},
    {"Collision_Term|String_Parameters|Gluon_Beta", "valid", "=0.5"},
    {"Collision_Term|String_Parameters|Gluon_Pmin", "valid", "=0.001"},
    {"Collision_Term|String_Parameters|Mass_Dependent_Formation_Times", "valid", "=false"},
    {"Collision_Term|String_Parameters|Quark_Alpha", "valid", "=2"},
    {"Collision_Term|String_Parameters|Quark_Beta", "valid", "=7"},
    {"Collision_Term|String_Parameters|Popcorn_Rate", "valid", "=0.14999999999999999"},
    {"Collision_Term|String_Parameters|Power_Particle_Formation", "valid", "DEP"},
    {"Collision_Term|String_Parameters|Prob_proton_to_d_uu", "valid", "=0.33333333333333331"},
    {"Collision_Term|String_Parameters|Separate_Fragment_Baryon", "valid", "=true"},
    {"Collision_Term|String_Parameters|Sigma_Perp", "valid", "=0.41999999999999998"},
    {"Collision_Term|String_Parameters|Strange_Supp", "valid", "=0.16"},
    {"Collision_Term|String_Parameters|String_Sigma_T", "valid", "=0.5"},
    {"Collision_Term|String_Parameters|String_Tension", "valid", "=1"},
    {"Collision_Term|String_Parameters|StringZ_A", "valid", "=2"},
    {"Collision_Term|String_Parameters|StringZ_A_Leading", "valid", "=0.20000000000000001"},
    {"Collision_Term|String_Parameters|StringZ_B", "valid", "=0.55000000000000004"},
    {"Collision_Term|String_Parameters|StringZ_B_Leading", "valid", "=2"},
    {"Collision_Term|String_Parameters|Use_Monash_Tune", "valid", "DEP"},
    {"Collision_Term|Dileptons|Decays", "valid", "=false"},
    {"Collision_Term|Photons|2to2_Scatterings", "valid", "=false"},
    {"Collision_Term|Photons|Bremsstrahlung", "valid", "=false"},
    {"Collision_Term|Photons|Fractional_Photons", "valid", "REQ"},
    {"Collision_Term|Heavy_Flavor|AQM_Bottom_Suppression", "valid", "=0.93000000000000005"},
    {"Collision_Term|Heavy_Flavor|AQM_Charm_Suppression", "valid", "=0.80000000000000004"},
    {"Modi|Collider|E_Kin", "valid", "REQ"},
    {"Modi|Collider|E_Tot", "valid", "REQ"},
    {"Modi|Collider|P_Lab", "valid", "REQ"},
    {"Modi|Collider|Sqrtsnn", "valid", "REQ"},
    {"Modi|Collider|Calculation_Frame", "valid", "=center of velocity"},
    {"Modi|Collider|Collisions_Within_Nucleus", "valid", "=false"},
    {"Modi|Collider|Fermi_Motion", "valid", "=off"},
    {"Modi|Collider|Initial_Distance", "valid", "=4"},
    {"Modi|Collider|Projectile|Diffusiveness", "valid", "DEP"},
    {"Modi|Collider|Target|Diffusiveness", "valid", "DEP"},
    {"Modi|Collider|Projectile|Particles", "valid", "REQ"},
    {"Modi|Collider|Target|Particles", "valid", "REQ"},
    {"Modi|Collider|Projectile|Radius", "valid", "DEP"},
    {"Modi|Collider|Target|Radius", "valid", "DEP"},
    {"Modi|Collider|Projectile|Saturation_Density", "valid", "DEP"},
    {"Modi|Collider|Target|Saturation_Density", "valid", "DEP"},
    {"Modi|Collider|Projectile|E_Kin", "valid", "REQ"},
    {"Modi|Collider|Target|E_Kin", "valid", "REQ"},
    {"Modi|Collider|Projectile|E_Tot", "valid", "REQ"},
    {"Modi|Collider|Target|E_Tot", "valid", "REQ"},
    {"Modi|Collider|Projectile|P_Lab", "valid", "REQ"},
    {"Modi|Collider|Target|P_Lab", "valid", "REQ"},
    {"Modi|Collider|Projectile|Custom|File_Directory", "valid", "REQ"},
    {"Modi|Collider|Target|Custom|File_Directory", "valid", "REQ"},
    {"Modi|Collider|Projectile|Custom|File_Name", "valid", "REQ"},
    {"Modi|Collider|Target|Custom|File_Name", "valid", "REQ"},
    {"Modi|Collider|Projectile|Deformed|Automatic", "valid", "REQ"},
    {"Modi|Collider|Target|Deformed|Automatic", "valid", "REQ"},
    {"Modi|Collider|Projectile|Deformed|Beta_2", "valid", "=0"},
    {"Modi|Collider|Target|Deformed|Beta_2", "valid", "=0"},
    {"Modi|Collider|Projectile|Deformed|Beta_3", "valid", "=0"},
    {"Modi|Collider|Target|Deformed|Beta_3", "valid", "=0"},
    {"Modi|Collider|Projectile|Deformed|Beta_4", "valid", "=0"},
    {"Modi|Collider|Target|Deformed|Beta_4", "valid", "=0"},
    {"Modi|Collider|Projectile|Deformed|Gamma", "valid", "=0"},
    {"Modi|Collider|Target|Deformed|Gamma", "valid", "=0"},
    {"Modi|Collider|Projectile|Alpha_Clustered|Automatic", "valid", "REQ"},
    {"Modi|Collider|Target|Alpha_Clustered|Automatic", "valid", "REQ"},
    {"Modi|Collider|Projectile|Alpha_Clustered|Side_Length", "valid", "=3.4199999999999999"},
    {"Modi|Collider|Target|Alpha_Clustered|Side_Length", "valid", "=3.4199999999999999"},
    {"Modi|Collider|Projectile|Orientation|Phi", "valid", "=0"},
    {"Modi|Collider|Target|Orientation|Phi", "valid", "=0"},
    {"Modi|Collider|Projectile|Orientation|Psi", "valid", "=0"},
    {"Modi|Collider|Target|Orientation|Psi", "valid", "=0"},
    {"Modi|Collider|Projectile|Orientation|Random_Rotation", "valid", "=false"},
    {"Modi|Collider|Target|Orientation|Random_Rotation", "valid", "=false"},
    {"Modi|Collider|Projectile|Orientation|Theta", "valid", "=0"},
    {"Modi|Collider|Target|Orientation|Theta", "valid", "=0"},
    {"Modi|Collider|Impact|Max", "valid", "=0"},
    {"Modi|Collider|Impact|Random_Reaction_Plane", "valid", "=false"},
    {"Modi|Collider|Impact|Range", "valid", "=0,0,"},
    {"Modi|Collider|Impact|Sample", "valid", "=quadratic"},
    {"Modi|Collider|Impact|Value", "valid", "=0"},
    {"Modi|Collider|Impact|Values", "valid", "REQ"},
    {"Modi|Collider|Impact|Yields", "valid", "REQ"},
    {"Modi|Collider|Initial_Conditions|Energy_Density_Threshold", "valid", "=0.5"},
    {"Modi|Collider|Initial_Conditions|Delay_Initial_Elastic", "valid", "=true"},
    {"Modi|Collider|Initial_Conditions|Fluidization_Cells", "valid", "-"},
    {"Modi|Collider|Initial_Conditions|Formation_Time_Fraction", "valid", "=1"},
    {"Modi|Collider|Initial_Conditions|Fluidizable_Processes", "valid", "=11111"},
    {"Modi|Collider|Initial_Conditions|Lower_Bound", "valid", "=0.5"},
    {"Modi|Collider|Initial_Conditions|Proper_Time_Scaling", "valid", "=1"},
    {"Modi|Collider|Initial_Conditions|Maximum_Time", "valid", "=100"},
    {"Modi|Collider|Initial_Conditions|Minimum_Time", "valid", "=0"},
    {"Modi|Collider|Initial_Conditions|Proper_Time", "valid", "DEP"},
    {"Modi|Collider|Initial_Conditions|pT_Cut", "valid", "=0"},
    {"Modi|Collider|Initial_Conditions|Rapidity_Cut", "valid", "=0"},
    {"Modi|Collider|Initial_Conditions|Type", "valid", "REQ"},
    {"Modi|Sphere|Init_Multiplicities", "valid", "REQ"},
    {"Modi|Sphere|Radius", "valid", "REQ"},
    {"Modi|Sphere|Start_Time", "valid", "REQ"},
    {"Modi|Sphere|Temperature", "valid", "REQ"},
    {"Modi|Sphere|Account_Resonance_Widths", "valid", "=true"},
    {"Modi|Sphere|Add_Radial_Velocity", "valid", "=-1"},
    {"Modi|Sphere|Add_Radial_Velocity_Exponent", "valid", "=1"},
    {"Modi|Sphere|Baryon_Chemical_Potential", "valid", "=0"},
    {"Modi|Sphere|Charge_Chemical_Potential", "valid", "=0"},
    {"Modi|Sphere|Initial_Condition", "valid", "=thermal momenta"},
    {"Modi|Sphere|Strange_Chemical_Potential", "valid", "=0"},
    {"Modi|Sphere|Heavy_Flavor_Multiplier", "valid", "=0"},
    {"Modi|Sphere|Use_Thermal_Multiplicities", "valid", "=false"},
    {"Modi|Sphere|Jet|Jet_PDG", "valid", "REQ"},
    {"Modi|Sphere|Jet|Jet_Momentum", "valid", "=20"},
    {"Modi|Sphere|Jet|Jet_Position", "valid", "=0,0,0,"},
    {"Modi|Sphere|Jet|Back_To_Back", "valid", "=false"},
    {"Modi|Sphere|Jet|Back_To_Back_Separation", "valid", "=0.01"},
    {"Modi|Box|Init_Multiplicities", "valid", "REQ"},
    {"Modi|Box|Initial_Condition", "valid", "REQ"},
    {"Modi|Box|Length", "valid", "REQ"},
    {"Modi|Box|Start_Time", "valid", "REQ"},
    {"Modi|Box|Temperature", "valid", "REQ"},
    {"Modi|Box|Account_Resonance_Widths", "valid", "=true"},
    {"Modi|Box|Baryon_Chemical_Potential", "valid", "=0"},
    {"Modi|Box|Charge_Chemical_Potential", "valid", "=0"},
    {"Modi|Box|Equilibration_Time", "valid", "=-1"},
    {"Modi|Box|Strange_Chemical_Potential", "valid", "=0"},
    {"Modi|Box|Use_Thermal_Multiplicities", "valid", "=false"},
    {"Modi|Box|Jet|Jet_Momentum", "valid", "=20"},
    {"Modi|Box|Jet|Jet_PDG", "valid", "REQ"},
    {"Modi|List|File_Directory", "valid", "REQ"},
    {"Modi|List|Filename", "valid", "REQ"},
    {"Modi|List|File_Prefix", "valid", "REQ"},
    {"Modi|List|Shift_Id", "valid", "=0"},
    {"Modi|List|Optional_Quantities", "valid", "=ID,charge,"},
    {"Modi|ListBox|File_Directory", "valid", "REQ"},
    {"Modi|ListBox|Filename", "valid", "REQ"},
    {"Modi|ListBox|File_Prefix", "valid", "REQ"},
    {"Modi|ListBox|Length", "valid", "REQ"},
    {"Modi|ListBox|Shift_Id", "valid", "=0"},
    {"Modi|ListBox|Optional_Quantities", "valid", "=ID,charge,"},
    {"Output|Density_Type", "valid", "=none"},
    {"Output|Output_Interval", "valid", "DEP"},
    {"Output|Output_Times", "valid", "DEP"},
    {"Output|Particles|Format", "valid", "="},
    {"Output|Collisions|Format", "valid", "="},
    {"Output|Dileptons|Format", "valid", "="},
    {"Output|Photons|Format", "valid", "="},
    {"Output|Initial_Conditions|Format", "valid", "="},
    {"Output|Rivet|Format", "valid", "="},
    {"Output|Coulomb|Format", "valid", "="},
    {"Output|Thermodynamics|Format", "valid", "="},
    {"Output|Particles|Extended", "valid", "=false"},
    {"Output|Particles|Quantities", "valid", "="},
    {"Output|Particles|Only_Final", "valid", "=Yes"},
    {"Output|Collisions|Extended", "valid", "=false"},
    {"Output|Collisions|Quantities", "valid", "="},
    {"Output|Collisions|Print_Start_End", "valid", "=false"},
    {"Output|Dileptons|Extended", "valid", "=false"},
    {"Output|Dileptons|Quantities", "valid", "="},
    {"Output|Photons|Extended", "valid", "=false"},
    {"Output|Photons|Quantities", "valid", "="},
    {"Output|Initial_Conditions|Extended", "valid", "=false"},
    {"Output|Initial_Conditions|Quantities", "valid", "="},
    {"Output|Initial_Conditions|Lower_Bound", "removed", "=0.5"},
    {"Output|Initial_Conditions|Proper_Time", "removed", "DEP"},
    {"Output|Initial_Conditions|pT_Cut", "removed", "DEP"},
    {"Output|Initial_Conditions|Rapidity_Cut", "removed", "DEP"},
    {"Output|Rivet|Analyses", "valid", "DEP"},
    {"Output|Rivet|Cross_Section", "valid", "DEP"},
    {"Output|Rivet|Ignore_Beams", "valid", "=true"},
    {"Output|Rivet|Logging", "valid", "DEP"},
    {"Output|Rivet|Paths", "valid", "DEP"},
    {"Output|Rivet|Preloads", "valid", "DEP"},
    {"Output|Rivet|Weights|Cap", "valid", "DEP"},
    {"Output|Rivet|Weights|Deselect", "valid", "DEP"},
    {"Output|Rivet|Weights|NLO_Smearing", "valid", "DEP"},
    {"Output|Rivet|Weights|No_Multi", "valid", "DEP"},
    {"Output|Rivet|Weights|Nominal", "valid", "DEP"},
    {"Output|Rivet|Weights|Select", "valid", "DEP"},
    {"Output|Thermodynamics|Only_Participants", "valid", "=false"},
    {"Output|Thermodynamics|Position", "valid", "=0,0,0,"},
    {"Output|Thermodynamics|Quantities", "valid", "="},
    {"Output|Thermodynamics|Smearing", "valid", "=true"},
    {"Output|Thermodynamics|Type", "valid", "=baryon"},
    {"Lattice|Automatic", "valid", "REQ"},
    {"Lattice|Cell_Number", "valid", "DEP"},
    {"Lattice|Origin", "valid", "DEP"},
    {"Lattice|Periodic", "valid", "DEP"},
    {"Lattice|Potentials_Affect_Thresholds", "valid", "=false"},
    {"Lattice|Sizes", "valid", "DEP"},
    {"Potentials|Use_Potentials_Outside_Lattice", "valid", "=true"},
    {"Potentials|Skyrme|Skyrme_A", "valid", "REQ"},
    {"Potentials|Skyrme|Skyrme_B", "valid", "REQ"},
    {"Potentials|Skyrme|Skyrme_Tau", "valid", "REQ"},
    {"Potentials|Symmetry|gamma", "valid", "DEP"},
    {"Potentials|Symmetry|S_Pot", "valid", "REQ"},
    {"Potentials|VDF|Coeffs", "valid", "REQ"},
    {"Potentials|VDF|Powers", "valid", "REQ"},
    {"Potentials|VDF|Sat_rhoB", "valid", "REQ"},
    {"Potentials|Coulomb|R_Cut", "valid", "REQ"},
    {"Potentials|Momentum_Dependence|C", "valid", "REQ"},
    {"Potentials|Momentum_Dependence|Lambda", "valid", "REQ"},
    {"Forced_Thermalization|Cell_Number", "valid", "REQ"},
    {"Forced_Thermalization|Critical_Edens", "valid", "REQ"},
    {"Forced_Thermalization|Start_Time", "valid", "REQ"},
    {"Forced_Thermalization|Timestep", "valid", "REQ"},
    {"Forced_Thermalization|Algorithm", "valid", "=biased BF"},
    {"Forced_Thermalization|Lattice_Sizes", "valid", "REQ"},
    {"Forced_Thermalization|Microcanonical", "valid", "=false"},
};
// clang-format on

From f86501f69ead6836a35a681a2082ffad8d1a5fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:46 +0000
Subject: [PATCH 01/22] fix: soil_depth_layers returns the layer depths in the
 declared unit

The value pointer designated entry 0 (the surface) of the 1-indexed cumulative
thickness array, so the deepest layer was never exposed, and the unit was
declared as m while the values are in cm.
---
 src/bmi_lgar.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 38e42a1..902680c 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -768,8 +768,10 @@ GetVarUnits(std::string name)
     return "m";
   else if (name.compare("soil_moisture_wetting_fronts") == 0) // array of doubles
     return "none";
-  else if (name.compare("soil_depth_layers") == 0 || name.compare("soil_depth_wetting_fronts") == 0) // array of doubles
+  else if (name.compare("soil_depth_wetting_fronts") == 0) // array of doubles
     return "m";
+  else if (name.compare("soil_depth_layers") == 0) // array of doubles
+    return "cm";
   else if (name.compare("soil_temperature_profile") == 0)
     return "K";
   else
@@ -914,7 +916,7 @@ GetValuePtr (std::string name)
   else if (name.compare("mass_balance") == 0)
     return (void*)(&bmi_unit_conv.mass_balance_m);
   else if (name.compare("soil_depth_layers") == 0)
-    return (void*)this->state->lgar_bmi_params.cum_layer_thickness_cm;  // this too and, if needed, change soil_moisture_layers to soil_thickness_layers
+    return (void*)(this->state->lgar_bmi_params.cum_layer_thickness_cm + 1);  // lgar uses 1-indexing (entry 0 is the surface); this too and, if needed, change soil_moisture_layers to soil_thickness_layers
   else if (name.compare("soil_moisture_wetting_fronts") == 0)
     return (void*)this->state->lgar_bmi_params.soil_moisture_wetting_fronts;
   else if (name.compare("soil_depth_wetting_fronts") == 0)
-- 
2.43.0


From 28a4757c651f6efb0b71bcc9b7546b12017452e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:49 +0000
Subject: [PATCH 02/22] fix: GetGridShape fills exactly one entry for every
 rank-1 grid

Grid 3 wrote shape[1] (out of bounds for a rank-1 shape) and grids 0, 1 and 4
wrote nothing.
---
 src/bmi_lgar.cxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 902680c..259d836 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -822,10 +822,9 @@ GetVarLocation(std::string name)
 void BmiLGAR::
 GetGridShape(const int grid, int *shape)
 {
-  if (grid == 2)
-    shape[0] = this->state->lgar_bmi_params.num_layers;
-  else if (grid == 3) // number of wetting fronts (dynamic)
-    shape[1] = this->state->lgar_bmi_params.num_wetting_fronts;
+  // all grids have rank 1, so the shape has exactly one entry
+  if (GetGridRank(grid) == 1)
+    shape[0] = this->GetGridSize(grid);
 }
 
 
-- 
2.43.0


From 2babff5230b7e62b855624351b95da48af44d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:52 +0000
Subject: [PATCH 03/22] fix: initialise the model state and the BMI outputs

volQ_gw_cm was accumulated and local_mass_balance and the BMI output values
could be read before they had ever been assigned.
---
 include/bmi_lgar.hxx | 2 +-
 src/bmi_lgar.cxx     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bmi_lgar.hxx b/include/bmi_lgar.hxx
index b29339a..71fb1b4 100644
--- a/include/bmi_lgar.hxx
+++ b/include/bmi_lgar.hxx
@@ -162,7 +162,7 @@ private:
     double mass_balance_m;
   };
 
-  struct bmi_unit_conversion bmi_unit_conv;
+  struct bmi_unit_conversion bmi_unit_conv = {};
 };
 
 
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 259d836..9fce361 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -33,7 +33,7 @@ void BmiLGAR::
 Initialize (std::string config_file)
 {
   if (config_file.compare("") != 0 ) {
-    this->state = new model_state;
+    this->state = new model_state(); // value-initialize, no model variable is left undefined
     state->head = NULL;
     state->state_previous = NULL;
     lgar_initialize(config_file, state);
-- 
2.43.0


From 9bba0c6df4265502a7d11ff394c33a77aef1ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:56 +0000
Subject: [PATCH 04/22] fix: Initialize without a configuration file raises an
 error

It dereferenced the uninitialised state pointer.
---
 src/bmi_lgar.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 9fce361..5b122fc 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -32,7 +32,9 @@ BmiLGAR::~BmiLGAR(){
 void BmiLGAR::
 Initialize (std::string config_file)
 {
-  if (config_file.compare("") != 0 ) {
+  if (config_file.compare("") == 0)
+    throw std::runtime_error("A configuration file is required to initialize the model");
+  else {
     this->state = new model_state(); // value-initialize, no model variable is left undefined
     state->head = NULL;
     state->state_previous = NULL;
-- 
2.43.0


From cad1aca7ff01a325ee254f047b6291cc9e68b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:59 +0000
Subject: [PATCH 05/22] fix: pass-through of rain for unsupported soils uses
 the forcing interval

The rate (mm/h) was reported as the amount of the interval, which is wrong for
any forcing resolution other than one hour, and model time did not advance.
---
 src/bmi_lgar.cxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 5b122fc..f547d27 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -90,15 +90,21 @@ Update()
   double mm_to_m = 0.001;
   
   if (state->lgar_bmi_params.is_invalid_soil_type) {
+    // precipitation over the forcing interval [mm]
+    double precip_timestep_mm = state->lgar_bmi_input_params->precipitation_mm_per_h * state->lgar_bmi_params.forcing_resolution_h;
+
+    state->lgar_bmi_params.time_s += state->lgar_bmi_params.forcing_resolution_h * state->units.hr_to_sec;
+    state->lgar_bmi_params.timesteps ++;
+
     // add to mass balance accumulated variables
-    state->lgar_mass_balance.volprecip_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volprecip_cm  += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volin_cm       = 0.0;
     state->lgar_mass_balance.volon_cm       = 0.0;
     state->lgar_mass_balance.volend_cm      = state->lgar_mass_balance.volstart_cm;
     state->lgar_mass_balance.volAET_cm      = 0.0;
     state->lgar_mass_balance.volrech_cm     = 0.0;
-    state->lgar_mass_balance.volrunoff_cm  += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
-    state->lgar_mass_balance.volQ_cm       += state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_cm;
+    state->lgar_mass_balance.volrunoff_cm  += precip_timestep_mm * mm_to_cm;
+    state->lgar_mass_balance.volQ_cm       += precip_timestep_mm * mm_to_cm;
     state->lgar_mass_balance.volQ_gw_cm     = 0.0;
     state->lgar_mass_balance.volPET_cm      = 0.0;
     state->lgar_mass_balance.volrunoff_giuh_cm  = 0.0;
@@ -106,13 +112,13 @@ Update()
 
     // converted values, a struct local to the BMI and has bmi output variables
     bmi_unit_conv.mass_balance_m        = 0.0;
-    bmi_unit_conv.volprecip_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volprecip_timestep_m  = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volin_timestep_m      = 0.0;
     bmi_unit_conv.volend_timestep_m     = 0.0;
     bmi_unit_conv.volAET_timestep_m     = 0.0;
     bmi_unit_conv.volrech_timestep_m    = 0.0;
-    bmi_unit_conv.volrunoff_timestep_m  = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
-    bmi_unit_conv.volQ_timestep_m       = state->lgar_bmi_input_params->precipitation_mm_per_h * mm_to_m;
+    bmi_unit_conv.volrunoff_timestep_m  = precip_timestep_mm * mm_to_m;
+    bmi_unit_conv.volQ_timestep_m       = precip_timestep_mm * mm_to_m;
     bmi_unit_conv.volQ_gw_timestep_m    = 0.0;
     bmi_unit_conv.volPET_timestep_m     = 0.0;
     bmi_unit_conv.volrunoff_giuh_timestep_m = 0.0;
-- 
2.43.0


From 1f0f093222865ff24a7864c0990e4ae7a6cee5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:26 +0000
Subject: [PATCH 06/22] fix: an update covers the whole forcing interval

When the forcing resolution is not a multiple of the (sub)timestep the remainder
of the interval, and its rain, was dropped; with a timestep longer than the
forcing interval no sub-step was taken at all.
---
 src/bmi_lgar.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index f547d27..d69e093 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -209,8 +209,12 @@ Update()
   }
 
   state->lgar_bmi_params.forcing_interval = int(state->lgar_bmi_params.forcing_resolution_h/state->lgar_bmi_params.timestep_h+1.0e-08); // add 1.0e-08 to prevent truncation error
+  state->lgar_bmi_params.forcing_interval = std::max(state->lgar_bmi_params.forcing_interval, 1);
   subcycles = state->lgar_bmi_params.forcing_interval;
 
+  // equal subtimesteps that span the forcing interval exactly, also when it is not a multiple of the model timestep
+  subtimestep_h = state->lgar_bmi_params.forcing_resolution_h / subcycles;
+
   if (verbosity.compare("high") == 0) {
     printf("time step size in hours: %lf \n", state->lgar_bmi_params.timestep_h);
   }
-- 
2.43.0


From 826e35f0fc2e6a31003d38c4a4e7a36bc4303de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:29 +0000
Subject: [PATCH 07/22] fix: surface water is split when ponding reaches
 exactly its maximum

With ponded_depth_temp == ponded_depth_max_cm neither branch was taken, so
nothing infiltrated and the ponded water exceeded the maximum.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 4a09fd0..c371ba0 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2069,7 +2069,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
       *ponded_depth_cm     = *ponded_depth_cm - *volin_this_timestep;
       return runoff;
     }
-    else if (ponded_depth_temp > ponded_depth_max_cm ) {
+    else {
       runoff = ponded_depth_temp - ponded_depth_max_cm;
       *ponded_depth_cm     = ponded_depth_max_cm;
       *volin_this_timestep = fp_cm;
-- 
2.43.0


From 0671c81c879b223acbcdd8da8aa29591f33d340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:32 +0000
Subject: [PATCH 08/22] fix: GIUH ordinates are kept for forcing resolutions
 above one hour

The factor was truncated to zero, leaving no ordinates, and the routing queue
was then written at index -1.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index c371ba0..43416e4 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -636,7 +636,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   }
 
   if (is_giuh_ordinates_set) {
-    int factor = int(1.0/state->lgar_bmi_params.forcing_resolution_h);
+    int factor = std::max(1, int(1.0/state->lgar_bmi_params.forcing_resolution_h + 1.0e-08)); // add 1.0e-08 to prevent truncation error
 
     state->lgar_bmi_params.num_giuh_ordinates = factor * (giuh_ordinates_temp.size() - 1);
     state->lgar_bmi_params.giuh_ordinates = new double[state->lgar_bmi_params.num_giuh_ordinates+1];
-- 
2.43.0


From eadcc1423edcaae18114623c2df833e33483ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:36 +0000
Subject: [PATCH 09/22] fix: unknown duration units in the configuration raise
 an error

A timestep or forcing resolution in an unknown unit was silently taken as hours
and the end time was left unset.
---
 src/lgar.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 43416e4..6c48611 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -425,6 +425,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.timestep_h /= 60; // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.timestep_h /= 1.0; // convert to hours
+      else
+	throw runtime_error("Invalid unit " + param_unit + " of timestep, must be s, min or h. \n");
 
       assert (state->lgar_bmi_params.timestep_h > 0);
       is_timestep_set = true;
@@ -449,6 +451,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 3600.0;
       else if (param_unit == "[d]" || param_unit == "[day]")
 	state->lgar_bmi_params.endtime_s = stod(param_value) * 86400.0;
+      else
+	throw runtime_error("Invalid unit " + param_unit + " of endtime, must be s, min, h or d. \n");
 
       assert (state->lgar_bmi_params.endtime_s > 0);
       is_endtime_set = true;
@@ -470,6 +474,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	state->lgar_bmi_params.forcing_resolution_h /= 60;                 // convert to hours
       else if (param_unit == "[h]" || param_unit == "[hr]")
 	state->lgar_bmi_params.forcing_resolution_h /= 1.0;               // convert to hours
+      else
+	throw runtime_error("Invalid unit " + param_unit + " of forcing_resolution, must be s, min or h. \n");
 
       assert (state->lgar_bmi_params.forcing_resolution_h > 0);
       is_forcing_resolution_set = true;
-- 
2.43.0


From ec4299c0203ee5e64ad79758edfd238cab994a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:02 +0000
Subject: [PATCH 10/22] fix: the unit of a configuration entry ends at the
 closing bracket

substr takes a length, so anything after the bracket (blank, carriage return,
comment) became part of the unit, which was then not recognised.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 6c48611..2a2fc2c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -251,7 +251,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     bool is_unit = line.find("[") != string::npos;
 
     if (is_unit)
-      param_unit = line.substr(loc_u,line.find("]")+1);
+      param_unit = line.substr(loc_u,line.find("]")+1 - loc_u);
     else
       param_unit = "";
 
-- 
2.43.0


From 53ea7e2e67ac9119c9e00032c68d4f94690f037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:06 +0000
Subject: [PATCH 11/22] fix: the soil temperature profile is not read past its
 end

Once all cells were consumed the next layer still read cell num_cells_temp.
---
 src/lgar.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 2a2fc2c..eb449ea 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -830,13 +830,11 @@ extern void frozen_factor_hydraulic_conductivity(struct lgar_bmi_parameters lgar
     layer_temp = 0.0;
     count = 0;
 
-    while (lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
+    while (c < lgar_bmi_params.num_cells_temp // to ensure we don't access out of bound values
+	   && lgar_bmi_params.soil_temperature_z[c] <= lgar_bmi_params.cum_layer_thickness_cm[layer]) {
       layer_temp +=lgar_bmi_params.soil_temperature[c];
       c++;
       count++;
-
-      if (c == lgar_bmi_params.num_cells_temp) // to ensure we don't access out of bound values
-	break;
     }
 
 
-- 
2.43.0


From 43cd9d3353f5f3275aedb0e609a5ca8dd4a31b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 12/22] fix: error paths do not report success

exit(0) was used to stop on detected errors, and failed allocations returned.
---
 src/lgar.cxx      |  4 ++--
 src/mem_funcs.cxx | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index eb449ea..7a1e065 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2314,7 +2314,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
-      exit(0);
+      exit(1);
     }
 
     strcpy(soil_properties[soil].soil_name,soil_name);
@@ -2450,7 +2450,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 
     if(theta1 > theta2) {
       printf("Calculating dzdt : theta1 > theta2 = (%lf, %lf) ... aborting \n", theta1, theta2);  // this should never happen
-      exit(0);
+      abort();
     }
 
     Geff = calc_Geff(use_closed_form_G, theta1, theta2, theta_e, theta_r, vg_alpha_per_cm, vg_n, vg_m, h_min_cm, Ksat_cm_per_h, nint, lambda, bc_psib_cm); 
diff --git a/src/mem_funcs.cxx b/src/mem_funcs.cxx
index b5f1914..ff433a8 100755
--- a/src/mem_funcs.cxx
+++ b/src/mem_funcs.cxx
@@ -31,7 +31,7 @@ int  i,frows,fcols;
 if ((rows==0)||(cols==0))
   {
   printf("Error: Attempting to allocate array of size 0\n");
-  exit(0);
+  exit(1);
   }
 
 frows=rows+1;  /* added one for FORTRAN numbering */
@@ -67,7 +67,7 @@ int  i,frows,fcols;
 if ((rows==0)||(cols==0))
   {
   printf("Error: Attempting to allocate array of size 0\n");
-  exit(0);
+  exit(1);
   }
 
 frows=rows+1;  /* added one for FORTRAN numbering */
@@ -102,7 +102,7 @@ void d_alloc(double **var,int size)
    if (*var == NULL)
       {
       printf("Problem allocating memory for array in d_alloc.\n");
-      return;
+      exit(1);
       }
    else memset(*var,0,size*sizeof(double));
    return;
@@ -118,8 +118,8 @@ void i_alloc(int **var,int size)
    *var = (int *)malloc(size * sizeof(int));
    if (*var == NULL)
       {
-      printf("Problem allocating memory in i_alloc\n");
-      return; 
+	  printf("Problem allocating memory in i_alloc\n");
+      exit(1);
       }
    else memset(*var,0,size*sizeof(int));
    return;
@@ -136,7 +136,7 @@ void f_alloc(float **var,int size)
    if (*var == NULL)
       {
       printf("Problem allocating memory for array in f_alloc.\n");
-      return;
+      exit(1);
       }
    else memset(*var,0,size*sizeof(float));
    return;
-- 
2.43.0


From 7b4f2d35d7433d5ccf367318ab340ebe3b216f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:13 +0000
Subject: [PATCH 13/22] fix: long soil names do not overflow their buffers

The name was read without a limit and a name of exactly MAX_SOIL_NAME_CHARS
characters was accepted although its terminator does not fit.
---
 src/lgar.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7a1e065..b23cdd1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2307,10 +2307,10 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   //for(soil=1;soil<=num_soil_types;soil++) {// read the num_soil_types lines with data
   while (fgets(jstr,255,in_vG_params_fptr) != NULL) {
 
-    sscanf(jstr,"%s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
+    sscanf(jstr,"%29s %lf %lf %lf %lf %lf",soil_name,&theta_r,&theta_e,&vg_alpha_per_cm,&vg_n,&Ksat_cm_per_h);
     length=strlen(soil_name);
 
-    if(length>MAX_SOIL_NAME_CHARS) {
+    if(length>=MAX_SOIL_NAME_CHARS) {
       printf("While reading vG soil parameter file: %s, soil name longer than allowed.  Increase MAX_SOIL_NAME_CHARS\n",
 	     vG_param_file_name);
       printf("Program stopped.\n");
-- 
2.43.0


From 0d3bf5c26366b809b5b2a3be17f980279878bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:16 +0000
Subject: [PATCH 14/22] fix: theta_wp is computed with the van Genuchten m of
 the soil

The local vg_m was used without ever being assigned.
---
 src/lgar.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b23cdd1..5bc5692 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2322,7 +2322,8 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_e         = theta_e;
     soil_properties[soil].vg_alpha_per_cm = vg_alpha_per_cm; // cm^(-1)
     soil_properties[soil].vg_n            = vg_n;
-    soil_properties[soil].vg_m            = 1-1/vg_n;
+    vg_m                                  = 1-1/vg_n;
+    soil_properties[soil].vg_m            = vg_m;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
     soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
 						       vg_m, vg_n, theta_e, theta_r);
-- 
2.43.0


From 5f523eabd5f5f2e0de7ef5c734210ddefbbbf164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:19 +0000
Subject: [PATCH 15/22] fix: a soil with van Genuchten n <= 1 stops the run

The error was printed and the run continued with undefined Brooks-Corey
parameters.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 5bc5692..0339581 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2339,7 +2339,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     }
     else {
       fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      //error = TRUE;  // TODO FIXME - what todo in this ccase?
+      abort();
     }
 
     /* this is the effective capillary drive after */
-- 
2.43.0


From 3680dd4ce9b3a6384c72ae9f1c245cf684cceb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:23 +0000
Subject: [PATCH 16/22] fix: use after free of a wetting front that dried out

After deleting the front the moisture of the freed front was read and its head
written; continue with the front that took its place.
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 0339581..7e7acac 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -1217,7 +1217,7 @@ extern void lgar_move_wetting_fronts(double timestep_h, double *volin_cm, int wf
         //the idea here is that in some cases, the reduction in theta via WF movement or AET will be intense enough such that theta goes below theta_r.
         //it requires a fairly unusual soil, which I encountered during random parameter sampling.
         double mass_before_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head) - current->depth_cm*(current->theta - (prior_mass/current->depth_cm + next->theta));
-        listDeleteFront(current->front_num, head);
+        current = listDeleteFront(current->front_num, head);
         double mass_after_theta_went_below_theta_r = lgar_calc_mass_bal(cum_layer_thickness_cm, *head);
         *AET_demand_cm = *AET_demand_cm - fabs(mass_before_theta_went_below_theta_r - mass_after_theta_went_below_theta_r);
         actual_ET_demand = *AET_demand_cm;
-- 
2.43.0


From 08586ef72aedf611b50f7eb0eab412fb4035f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:14 +0000
Subject: [PATCH 17/22] fix: configuration arrays are released before they are
 replaced

soil_z without freeze-thaw coupling, a repeated entry, or initialising the same
object again leaked the previous array.
---
 src/bmi_lgar.cxx | 2 ++
 src/lgar.cxx     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index d69e093..5322caf 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -46,6 +46,8 @@ Initialize (std::string config_file)
   /* giuh ordinates are static and read in the lgar.cxx, and we need to have a copy of it to pass to
      giuh.cxx, so allocating/copying here*/
 
+  delete [] giuh_ordinates;
+  delete [] giuh_runoff_queue;
   giuh_ordinates = new double[num_giuh_ordinates];
   giuh_runoff_queue = new double[num_giuh_ordinates+1];
 
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7e7acac..151d0a1 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -260,6 +260,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     if (param_key == "layer_thickness") {
       vector<double> vec = ReadVectorData(param_value);
 
+      delete [] state->lgar_bmi_params.layer_thickness_cm;
+      delete [] state->lgar_bmi_params.cum_layer_thickness_cm;
       state->lgar_bmi_params.layer_thickness_cm = new double[vec.size()+1];
       state->lgar_bmi_params.cum_layer_thickness_cm = new double[vec.size()+1];
 
@@ -290,6 +292,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     else if (param_key == "layer_soil_type") {
       vector<double> vec = ReadVectorData(param_value);
 
+      delete [] state->lgar_bmi_params.layer_soil_type;
       state->lgar_bmi_params.layer_soil_type = new int[vec.size()+1];
 
       for (unsigned int layer=1; layer <= vec.size(); layer++)
@@ -321,6 +324,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     else if (param_key == "soil_z") {
       vector<double> vec = ReadVectorData(param_value);
 
+      delete [] state->lgar_bmi_params.soil_temperature_z;
       state->lgar_bmi_params.soil_temperature_z = new double[vec.size()];
 
       for (unsigned int i=0; i < vec.size(); i++)
@@ -680,6 +684,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   else {
     //NJF FIXME these arrays should be allocated based on num_cells_temp...
     state->lgar_bmi_params.soil_temperature   = new double[1]();
+    delete [] state->lgar_bmi_params.soil_temperature_z; // soil_z may be given although not coupled
     state->lgar_bmi_params.soil_temperature_z = new double[1]();
     state->lgar_bmi_params.num_cells_temp     = 1;
   }
-- 
2.43.0


From a831f657135c3e9c1844b3a77f89e7b8718d5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:18 +0000
Subject: [PATCH 18/22] fix: soil types outside the soil table are not used to
 index it

Unsupported soil types (above max_valid_soil_types) indexed past the allocated
soil properties during initialisation; types below one, types missing in the
soil parameters file and missing entries of layer_soil_type were read out of
bounds or uninitialised.
---
 src/lgar.cxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 151d0a1..7c8263c 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -233,6 +233,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
   bool is_ponded_depth_max_cm_set   = false;
 
   string soil_params_file;
+  int num_layer_soil_types = 0; // number of entries of layer_soil_type
 
   // a temporary array to store the original (hourly based) giuh values
   std::vector<double> giuh_ordinates_temp;
@@ -298,6 +299,7 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
       for (unsigned int layer=1; layer <= vec.size(); layer++)
       	state->lgar_bmi_params.layer_soil_type[layer] = vec[layer-1];
 
+      num_layer_soil_types   = vec.size();
       is_layer_soil_type_set = true;
 
       continue;
@@ -565,7 +567,18 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
     //state->soil_properties = (struct soil_properties_*) malloc((state->lgar_bmi_params.num_layers+1)*sizeof(struct soil_properties_));
 
 
-    state->soil_properties = new soil_properties_[state->lgar_bmi_params.num_soil_types+1];
+    if (num_layer_soil_types < state->lgar_bmi_params.num_layers)
+      throw runtime_error("layer_soil_type has fewer entries than layer_thickness. \n");
+
+    // unsupported soil types need an (empty) entry too, they are used to index the array
+    int max_soil_type = state->lgar_bmi_params.num_soil_types;
+    for (int layer=1; layer <= state->lgar_bmi_params.num_layers; layer++) {
+      if (state->lgar_bmi_params.layer_soil_type[layer] < 1)
+	throw runtime_error("layer_soil_type must be positive. \n");
+      max_soil_type = std::max(max_soil_type, state->lgar_bmi_params.layer_soil_type[layer]);
+    }
+
+    state->soil_properties = new soil_properties_[max_soil_type+1]();
     int num_soil_types = state->lgar_bmi_params.num_soil_types;
     double wilting_point_psi_cm = state->lgar_bmi_params.wilting_point_psi_cm;
     double field_capacity_psi_cm = state->lgar_bmi_params.field_capacity_psi_cm;
@@ -586,6 +599,8 @@ extern void InitFromConfigFile(string config_file, struct model_state *state)
 	}
 	break;
       }
+      if (state->lgar_bmi_params.layer_soil_type[layer] > max_num_soil_in_file)
+	throw runtime_error("layer_soil_type is not in the soil parameters file. \n");
     }
 
     if (verbosity.compare("high") == 0) {
-- 
2.43.0


From 16e20687bebd6492cc401483538ab5ecbb49567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:21 +0000
Subject: [PATCH 19/22] fix: conductivity is reduced by the freeze factor of
 its own layer, once

The infiltration capacity combined the conductivity of the free-drainage layer
with the freeze factor of the top layer, and a new surficial front had its
conductivity reduced twice.
---
 src/lgar.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index 7c8263c..b2f8876 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2000,7 +2000,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
   if (number_of_wetting_fronts == num_layers) {
     Geff = 0.0; // i.e., case of no capillary suction, dz/dt is also zero for all wetting fronts
     soil_num = soil_type[layer_num_fp];
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num]; //23 feb 2024
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp]; //23 feb 2024
   }
   else {
 
@@ -2017,7 +2017,7 @@ extern double lgar_insert_water(bool use_closed_form_G, int nint, double timeste
     vg_n     = soil_properties[soil_num].vg_n;
     double lambda = soil_properties[soil_num].bc_lambda;
     double bc_psib_cm = soil_properties[soil_num].bc_psib_cm;
-    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[current->layer_num];
+    Ksat_cm_per_h = soil_properties[soil_num].Ksat_cm_per_h * frozen_factor[layer_num_fp];
 
     // Se = calc_Se_from_theta(theta,theta_e,theta_r);
     // psi_cm = calc_h_from_Se(Se, vg_a, vg_m, vg_n);
@@ -2176,7 +2176,7 @@ extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm,
   Se = calc_Se_from_theta(theta_new,theta_e,theta_r);
   current->psi_cm = calc_h_from_Se(Se, vg_alpha_per_cm , vg_m, vg_n);
 
-  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m) * frozen_factor[layer_num]; // AJ - K_temp in python version for 1st layer
+  current->K_cm_per_h = calc_K_from_Se(Se, Ksat_cm_per_h, vg_m); // AJ - K_temp in python version for 1st layer
 
   current->dzdt_cm_per_h = 0.0; //for now assign 0 to dzdt as it will be computed/updated in lgar_dzdt_calc function
 
-- 
2.43.0


From 47dac1334935a588281ab282dea795a67833fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:24 +0000
Subject: [PATCH 20/22] fix: inserting a front inside the list terminates

The renumbering loop never advanced, and a position beyond the end of the list
dereferenced a null pointer.
---
 src/linked_list.cxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/linked_list.cxx b/src/linked_list.cxx
index 0176d41..ccc8125 100755
--- a/src/linked_list.cxx
+++ b/src/linked_list.cxx
@@ -315,18 +315,16 @@ extern struct wetting_front* listInsertFront(double depth, double theta, int new
       link->next = previous->next ;
       previous->next = link;
 
-      while(link->next != NULL) { // increment all front numbers
-	current = link->next;
+      for (current = link->next; current != NULL; current = current->next) // increment all front numbers
 	current->front_num++;
-	previous = current;
-	current = current->next;
-      }
 
       return link;
     }
 
     previous = previous->next;
-  } while(TRUE);
+  } while(previous != NULL);
+
+  return NULL; // there is no front the new one could follow
 
 }
 
-- 
2.43.0


From 8562ee0e989f2cef67d1fa495a2e3700848683c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:36 +0000
Subject: [PATCH 21/22] fix: front velocity pairs each overlying layer's
 thickness with its own conductivity

For fronts in the third or a deeper layer the thickness of layer k was divided by
the conductivity of layer (layer_num - k).
---
 src/lgar.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lgar.cxx b/src/lgar.cxx
index b2f8876..04c15e6 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2499,7 +2499,7 @@ extern void lgar_dzdt_calc(bool use_closed_form_G, int nint, double h_p, int *so
 	double K_cm_per_h_prev_loc = calc_K_from_Se(Se_prev_loc,soil_properties[soil_num_loc].Ksat_cm_per_h * frozen_factor[layer_num-k],
 						    soil_properties[soil_num_loc].vg_m);
 
-	denominator += (cum_layer_thickness_cm[k] - cum_layer_thickness_cm[k-1])/ K_cm_per_h_prev_loc;
+	denominator += (cum_layer_thickness_cm[layer_num-k] - cum_layer_thickness_cm[layer_num-(k+1)])/ K_cm_per_h_prev_loc;
 
       }
 
-- 
2.43.0


From e5f358422a2ba3e9d74122700d3691de2a04ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:09 +0000
Subject: [PATCH 22/22] fix: calibrated soils get their derived parameters and
 conductivities recomputed

Brooks-Corey parameters, minimum capillary drive, wilting point moisture and the
conductivity of the fronts kept the values of the uncalibrated soil.
---
 include/all.hxx  |  3 +++
 src/bmi_lgar.cxx |  6 ++++-
 src/lgar.cxx     | 61 +++++++++++++++++++++++++++---------------------
 3 files changed, 43 insertions(+), 27 deletions(-)

diff --git a/include/all.hxx b/include/all.hxx
index a3c3fd2..be1afa3 100755
--- a/include/all.hxx
+++ b/include/all.hxx
@@ -278,6 +278,9 @@ extern double lgar_calc_dry_depth(bool use_closed_form_G, int nint, double times
 extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_types, double wilting_point_psi_cm,
                                     struct soil_properties_ *soil_properties);
 
+// computes the soil parameters derived from the van Genuchten parameters
+extern void lgar_derived_soil_parameters(double wilting_point_psi_cm, struct soil_properties_ *soil);
+
 // creates a surficial front (new top most wetting front)
 extern void lgar_create_surficial_front(int num_layers, double *ponded_depth_cm, double *volin, double dry_depth,
 					double theta1, int *soil_type, double *cum_layer_thickness_cm,
diff --git a/src/bmi_lgar.cxx b/src/bmi_lgar.cxx
index 5322caf..2c8bdae 100644
--- a/src/bmi_lgar.cxx
+++ b/src/bmi_lgar.cxx
@@ -624,14 +624,18 @@ update_calibratable_parameters()
     state->soil_properties[soil].theta_e = state->lgar_calib_params.theta_e[layer_num-1];
     state->soil_properties[soil].theta_r = state->lgar_calib_params.theta_r[layer_num-1];
     state->soil_properties[soil].vg_n    = state->lgar_calib_params.vg_n[layer_num-1];
-    state->soil_properties[soil].vg_m    = 1.0 - 1.0/state->soil_properties[soil].vg_n;
     state->soil_properties[soil].vg_alpha_per_cm = state->lgar_calib_params.vg_alpha[layer_num-1];
     state->soil_properties[soil].Ksat_cm_per_h   = state->lgar_calib_params.Ksat[layer_num-1];
+    lgar_derived_soil_parameters(state->lgar_bmi_params.wilting_point_psi_cm, &state->soil_properties[soil]);
     
     current->theta = calc_theta_from_h(current->psi_cm, state->soil_properties[soil].vg_alpha_per_cm,
 				       state->soil_properties[soil].vg_m, state->soil_properties[soil].vg_n,
 				       state->soil_properties[soil].theta_e, state->soil_properties[soil].theta_r);
 
+    double Se = calc_Se_from_theta(current->theta, state->soil_properties[soil].theta_e, state->soil_properties[soil].theta_r);
+    current->K_cm_per_h = calc_K_from_Se(Se, state->soil_properties[soil].Ksat_cm_per_h * state->lgar_bmi_params.frozen_factor[layer_num],
+					 state->soil_properties[soil].vg_m);
+
     if (verbosity.compare("high") == 0 || verbosity.compare("low") == 0) {
       std::cerr<<"----------- Calibratable parameters depending on soil layer (updated values) ----------- \n";
       std::cerr<<"| soil_type = "<< soil <<", layer = "<<layer_num
diff --git a/src/lgar.cxx b/src/lgar.cxx
index 04c15e6..a78108a 100755
--- a/src/lgar.cxx
+++ b/src/lgar.cxx
@@ -2294,6 +2294,39 @@ double lgar_calc_mass_bal(double *cum_layer_thickness, struct wetting_front* hea
   return sum;
 }
 
+// ############################################################################################
+/* computes the soil parameters that follow from the van Genuchten parameters of a soil */
+// ############################################################################################
+extern void lgar_derived_soil_parameters(double wilting_point_psi_cm, struct soil_properties_ *soil)
+{
+  double m, p, lambda;
+  double vg_n = soil->vg_n;
+  double vg_alpha_per_cm = soil->vg_alpha_per_cm;
+
+  soil->vg_m     = 1.0 - 1.0/vg_n;
+  soil->theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm, soil->vg_m, vg_n, soil->theta_e, soil->theta_r);
+
+  // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
+  if (1.0 < vg_n) {
+    m = 1.0 - 1.0 / vg_n;
+    p = 1.0 + 2.0 / m;
+    soil->bc_lambda  = 2.0 / (p - 3.0);
+    soil->bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
+      (2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
+    assert(0.0 < soil->bc_psib_cm);
+  }
+  else {
+    fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
+    abort();
+  }
+
+  /* this is the effective capillary drive after */
+  /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
+  /* psi should not be less than this value.  */
+  lambda = soil->bc_lambda;
+  soil->h_min_cm = soil->bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+}
+
 // ############################################################################################
 /* The module reads the soil parameters.
    Open file to read in the van Genuchten parameters for standard soil types*/
@@ -2314,8 +2347,7 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
   int length;
   int num_soils_in_file = 0;             // soil counter
   int soil = 1;
-  double theta_e,theta_r,vg_n,vg_m,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
-  double m,p,lambda;
+  double theta_e,theta_r,vg_n,vg_alpha_per_cm,Ksat_cm_per_h;  // shorthand variable names
 
   // open the file
   if((in_vG_params_fptr=fopen(vG_param_file_name,"r"))==NULL) {
@@ -2342,31 +2374,8 @@ extern int lgar_read_vG_param_file(char const* vG_param_file_name, int num_soil_
     soil_properties[soil].theta_e         = theta_e;
     soil_properties[soil].vg_alpha_per_cm = vg_alpha_per_cm; // cm^(-1)
     soil_properties[soil].vg_n            = vg_n;
-    vg_m                                  = 1-1/vg_n;
-    soil_properties[soil].vg_m            = vg_m;
     soil_properties[soil].Ksat_cm_per_h   = Ksat_cm_per_h;
-    soil_properties[soil].theta_wp = calc_theta_from_h(wilting_point_psi_cm, vg_alpha_per_cm,
-						       vg_m, vg_n, theta_e, theta_r);
-
-    // Given van Genuchten parameters calculate estimates of Brooks & Corey bc_lambda and bc_psib
-    if (1.0 < vg_n) {
-      m = 1.0 - 1.0 / vg_n;
-      p = 1.0 + 2.0 / m;
-      soil_properties[soil].bc_lambda  = 2.0 / (p - 3.0);
-      soil_properties[soil].bc_psib_cm = (p + 3.0) * (147.8 + 8.1 * p + 0.092 * p * p) /
-	(2.0 * vg_alpha_per_cm * p * (p - 1.0) * (55.6 + 7.4 * p + p * p));
-      assert(0.0 < soil_properties[soil].bc_psib_cm);
-    }
-    else {
-      fprintf(stderr, "ERROR: van Genuchten parameter n must be greater than 1\n");
-      abort();
-    }
-
-    /* this is the effective capillary drive after */
-    /* Morel-Seytoux et al. (1996) eqn. 13 or 15 */
-    /* psi should not be less than this value.  */
-    lambda=soil_properties[soil].bc_lambda;
-    soil_properties[soil].h_min_cm = soil_properties[soil].bc_psib_cm*(2.0+3.0/lambda)/(1.0+3.0/lambda);
+    lgar_derived_soil_parameters(wilting_point_psi_cm, &soil_properties[soil]);
     num_soils_in_file++;
     soil++;
 
-- 
2.43.0


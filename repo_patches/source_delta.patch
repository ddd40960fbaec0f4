From 6c22ba24b020575f3019cc68fa4d464c1ed6f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 01/37] fix: reallocate the eigensolver fields when mu is
 switched on or off

init_params kept the workspace of the previous run (have_old_fields) if its
size happened to match, even if that run had a different using_mup().  muinvH
was then stale (or an alias of H), and deflation gave wrong bands.
---
 mpb/mpb.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..836e95e 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -370,6 +370,20 @@ void set_parity(integer p)
 
 /**************************************************************************/
 
+/* Deallocate the fields and the workspace for the eigensolver. */
+static void destroy_fields(void)
+{
+     int i;
+
+     if (muinvH.data != H.data)
+	  destroy_evectmatrix(muinvH);
+     if (Hblock.data != H.data)
+	  destroy_evectmatrix(Hblock);
+     for (i = 0; i < nwork_alloc; ++i)
+	  destroy_evectmatrix(W[i]);
+     destroy_evectmatrix(H);
+}
+
 /* Guile-callable function: init-params, which initializes any data
    that we need for the eigenvalue calculation.  When this function
    is called, the input variables (the geometry, etcetera) have already
@@ -386,7 +400,7 @@ void init_params(integer p, boolean reset_fields)
 {
      int i, local_N, N_start, alloc_N;
      int nx, ny, nz;
-     int have_old_fields = 0;
+     int have_old_fields = 0, old_mup = 0;
      int block_size;
      int max_kpoints_print = (mpb_verbosity >= 2 ?
                               k_points.num_items :
@@ -444,15 +458,9 @@ void init_params(integer p, boolean reset_fields)
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
 	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
-	  }
+	  else
+	       destroy_fields();
+	  old_mup = using_mup();
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -480,6 +488,12 @@ void init_params(integer p, boolean reset_fields)
 
      init_epsilon();
 
+     if (have_old_fields && using_mup() != old_mup) {
+	  /* W and muinvH were allocated for the other case */
+	  destroy_fields();
+	  have_old_fields = 0;
+     }
+
      if (!have_old_fields) {
 	  mpi_one_printf("Allocating fields...\n");
 	  H = create_evectmatrix(nx * ny * nz, 2, num_bands,
-- 
2.43.0


From 9ced16e09d4173f4f18292f922a9c6bf994a775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 02/37] fix: compute-field-divergence crashed before
 init-params

---
 mpb/fields.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..03956d4 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -373,7 +373,7 @@ void compute_field_divergence(void)
 {
      int i, j, N;
      scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
@@ -381,6 +381,8 @@ void compute_field_divergence(void)
           return;
      }
 
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
 
-- 
2.43.0


From 74d012cb2ed75a989b3be9e7cbb0008ec90d5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 03/37] fix: get-epsilon-point and integrate-fields crashed
 before init-params

---
 mpb/field-smob.c | 1 +
 mpb/fields.c     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 2e568f3..309443d 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -428,6 +428,7 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 	  last_dim = pf[0]->last_dim;
      }
      else {
+	  CHECK(mdata, "init-params must be called before integrate-fields");
 	  n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 	  n_other = mdata->other_dims;
 	  n_last = mdata->last_dim_size
diff --git a/mpb/fields.c b/mpb/fields.c
index 03956d4..e1ed730 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -661,6 +661,8 @@ static symmetric_matrix interp_eps_inv(vector3 p)
      int stride = sizeof(symmetric_matrix) / sizeof(real);
      symmetric_matrix eps_inv;
 
+     CHECK(mdata, "init-params must be called before get-epsilon-point");
+
      eps_inv.m00 = f_interp_val(p, mdata, &mdata->eps_inv->m00, stride, 0);
      eps_inv.m11 = f_interp_val(p, mdata, &mdata->eps_inv->m11, stride, 0);
      eps_inv.m22 = f_interp_val(p, mdata, &mdata->eps_inv->m22, stride, 0);
-- 
2.43.0


From c97ec6a7efb800b3bfc6538ff59c2d761edf8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 04/37] fix: material-grid gradients crashed if there was no
 field for the band

Also, compute_field_squared went on without a vector field after complaining.
---
 mpb/fields.c        | 1 +
 mpb/material_grid.c | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index e1ed730..c543432 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -357,6 +357,7 @@ void compute_field_squared(void)
 
      if (!curfield || !strchr("dhbecv", curfield_type)) {
           mpi_one_fprintf(stderr, "A vector field must be loaded first.\n");
+          return;
      }
 
      curfield_type = 'c';  /* force it to just square the field */
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..43648fd 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -396,10 +396,12 @@ void material_grids_addgradient(double *v,
 
      CHECK(band <= num_bands, "addgradient called for uncomputed band");
      if (band) {
-	  scalegrad *= -freqs.items[band - 1]/2;
 	  get_efield(band);
+	  CHECK(curfield, "addgradient called for uncomputed band");
+	  scalegrad *= -freqs.items[band - 1]/2;
      }
      compute_field_squared();
+     CHECK(curfield && curfield_type == 'R', "addgradient needs a field");
      Esqr = (real *) curfield;
      scalegrad *= Vol / H.N;
 
-- 
2.43.0


From c084c73d18c1d754ea0391d2bf3af97485c20710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 05/37] fix: fields loaded without a computed band corrupted
 memory or crashed

fix-field-phase and output-field indexed the eigenvectors and freqs by the
band of the last field, which need not exist for a field from field-load.
---
 mpb/fields.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c543432..e364432 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -541,6 +541,8 @@ void fix_field_phase(void)
 	  curfield[i].re = a*SCALAR_RE(phase) - b*SCALAR_IM(phase);
 	  curfield[i].im = a*SCALAR_IM(phase) + b*SCALAR_RE(phase);
      }
+     if (curfield_band < 1 || curfield_band > H.p)
+	  return; /* the field was loaded, and belongs to no present band */
      for (i = 0; i < H.n; ++i) {
           ASSIGN_MULT(H.data[i*H.p + curfield_band - 1],
 		      H.data[i*H.p + curfield_band - 1], phase);
@@ -998,6 +1000,13 @@ static void output_scalarfield(real *vals,
 	  matrixio_close_dataset(data_id);
 }
 
+/* the frequency of curfield's band, or 0 if it belongs to no computed band */
+static double curfield_freq(void)
+{
+     return curfield_band >= 1 && curfield_band <= freqs.num_items
+	  ? freqs.items[curfield_band - 1] : 0.0;
+}
+
 /* given the field in curfield, store it to HDF (or whatever) using
    the matrixio (fieldio) routines.  Allow the component to be specified
    (which_component 0/1/2 = x/y/z, -1 = all) for vector fields.
@@ -1115,7 +1124,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  }
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting fields to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1168,7 +1177,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 		  curfield_type, kpoint_index, curfield_band);
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting complex scalar field to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1228,7 +1237,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	       sprintf(description,
 		       "%c field energy density, kpoint %d, band %d, freq=%g",
 		       curfield_type, kpoint_index, curfield_band,
-		       freqs.items[curfield_band - 1]);
+		       curfield_freq());
 	  }
 	  fname2 = fix_fname(fname, filename_prefix, mdata,
 			     /* no parity suffix for epsilon: */
-- 
2.43.0


From 8551a6ee68a5aaf3f334109e81991c51e1d97ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 06/37] fix: division by zero for num-bands = 0 and a negative
 block size

---
 mpb/mpb.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 836e95e..0927d37 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -440,7 +440,8 @@ void init_params(integer p, boolean reset_fields)
      mpi_one_printf("Working in %d dimensions.\n", dimensions);
      mpi_one_printf("Grid size is %d x %d x %d.\n", nx, ny, nz);
 
-     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
+     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands
+	 && num_bands > 0) {
 	  block_size = eigensolver_block_size;
 	  if (block_size < 0) {
 	       /* Guess a block_size near -block_size, chosen so that
@@ -478,7 +479,8 @@ void init_params(integer p, boolean reset_fields)
 
      mpi_one_printf("Creating Maxwell data...\n");
      mdata = create_maxwell_data(nx, ny, nz, &local_N, &N_start, &alloc_N,
-                                 block_size, NUM_FFT_BANDS);
+                                 block_size > 0 ? block_size : 1,
+                                 NUM_FFT_BANDS);
      CHECK(mdata, "NULL mdata");
 
      if (target_freq != 0.0)
-- 
2.43.0


From f00790e58034a8e3dec7183f89b7b3f7007f5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 07/37] fix: compute-field-divergence returned a wrong field

The final multiplication by i overwrote the real part before using it, and
with inversion symmetry k_plus_G was indexed with the padded row length.
---
 mpb/fields.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index e364432..92b7c23 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -391,7 +391,7 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
@@ -413,9 +413,8 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
-	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+	  real re = CSCALAR_RE(curfield[i]), im = CSCALAR_IM(curfield[i]);
+	  CASSIGN_SCALAR(curfield[i], -im * scale, re * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From 1b6d62cc5b10ec37afc46818d32bab620801db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 08/37] fix: wrong Bloch phase in output files of complex
 scalar fields

The phase was applied as if the field had three components, which also
ran past the end of the array.
---
 src/matrixio/fieldio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..c020701 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,15 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components; ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From d688d4a9bf95892120254b0955ab3afd69420c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 09/37] fix: cur-field did not work after get-mu

---
 mpb/field-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 309443d..7f56a81 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -143,7 +143,7 @@ field_smob *update_curfield_smob(void)
 	  curfield_smob.type = CVECTOR_FIELD_SMOB;
 	  curfield_smob.f.cv = curfield;
      }
-     else if (strchr("DHBnR", curfield_type)) { /* real scalar field */
+     else if (strchr("DHBnmR", curfield_type)) { /* real scalar field */
 	  curfield_smob.type = RSCALAR_FIELD_SMOB;
 	  curfield_smob.f.rs = (real *) curfield;
      }
-- 
2.43.0


From a7d42fd348218e5d4e5252df54b153eb307c0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 10/37] fix: mirror boundary of interpolation just beyond the
 upper edge

---
 mpb/epsilon_file.c  | 6 +++---
 mpb/material_grid.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..8ab2889 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -55,9 +55,9 @@ real linear_interpolate(real rx, real ry, real rz,
      real dx, dy, dz;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 43648fd..46c8f08 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -257,9 +257,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      real dx, dy, dz, u;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
-- 
2.43.0


From 4e1622486c76e5c1bd31ddf18ed0b50a3959e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 11/37] fix: a material grid as default material used only part
 of its data

The position in the cell runs from -0.5 to 0.5 but the interpolation
expects 0 to 1, so half of the grid was mirrored and the rest ignored.
---
 mpb/material_grid.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 46c8f08..1cff691 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -115,9 +115,9 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
      }
      if (!tp && compatible_matgrids(mg, &default_material)) {
-	  p.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  p.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  p.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  p.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  p.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  p.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  u = material_grid_val(p,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
@@ -372,9 +372,9 @@ static void material_grids_addgradient_point(double *v,
 				   * grids[i].size.z);
 	  }
 	  CHECK(i < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+i);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
@@ -599,9 +599,9 @@ void print_material_grids_deps_du(void)
 				   * grids[ig].size.z);
 	  }
 	  CHECK(ig < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+ig);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-- 
2.43.0


From beb60b292d900b95a6365c02e17ae7670e305b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 12/37] fix: material-grid debugging functions crashed if
 nothing was solved

---
 mpb/material_grid.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 1cff691..f858139 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -397,7 +397,9 @@ void material_grids_addgradient(double *v,
      CHECK(band <= num_bands, "addgradient called for uncomputed band");
      if (band) {
 	  get_efield(band);
-	  CHECK(curfield, "addgradient called for uncomputed band");
+	  CHECK(curfield && curfield_type == 'e' && curfield_band == band
+		&& band <= freqs.num_items,
+		"addgradient called for uncomputed band");
 	  scalegrad *= -freqs.items[band - 1]/2;
      }
      compute_field_squared();
@@ -481,7 +483,10 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      int i, ntot = material_grids_ntot(grids, ngrids);
      double *u = (double *) malloc(sizeof(double) * ntot);
      double f0, f1, dfdu;
+     CHECK(iu >= 0 && iu < ntot, "invalid index in material-grids-approx-gradient");
      solve_kpoint(kpoint);
+     CHECK(band >= 1 && band <= freqs.num_items,
+	   "material-grids-approx-gradient called for uncomputed band");
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
@@ -510,6 +515,9 @@ void print_material_grids_deps_du(void)
      int ntot = material_grids_ntot(grids, ngrids);
      double *v = (double *) malloc(sizeof(double) * ntot);
 
+     CHECK(mdata, "init-params must be called before "
+	   "print-material-grids-deps-du");
+
      n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
 
      s1 = geometry_lattice.size.x / n1;
@@ -626,16 +634,20 @@ void print_material_grids_deps_du(void)
 void print_material_grids_deps_du_numeric(double du)
 {
      int i, j, k;
-     int n1 = mdata->nx, n2 = mdata->ny, n3 = mdata->nz;
+     int n1, n2, n3;
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int ntot = material_grids_ntot(grids, ngrids);
-     double *u = (double *) malloc(sizeof(double) * ntot);
-     double *v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
-     double *ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
-     double *foo;
+     double *u, *v, *ep;
      int iu;
 
+     CHECK(mdata, "init-params must be called before "
+	   "print-material-grids-deps-du-numeric");
+     n1 = mdata->nx; n2 = mdata->ny; n3 = mdata->nz;
+     u = (double *) malloc(sizeof(double) * ntot);
+     v = (double *) malloc(sizeof(double) * (n1*n2*n3) * ntot);
+     ep = (double *) malloc(sizeof(double) * (n1*n2*n3));
+
      material_grids_get(u, grids, ngrids);
      reset_epsilon();
 
-- 
2.43.0


From 97e407007e8854458803202770e373bf12bd43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 13/37] fix: integrals of complex scalar fields with inversion
 symmetry

The mirrored half of the cell holds the complex conjugate values, as for
vector fields and point values.
---
 mpb/field-smob.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 7f56a81..124e77b 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -597,8 +597,9 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 					    pf[ifield]->f.rs[index]);
 				       break;
 				  case CSCALAR_FIELD_SMOB:
-				       item = cnumber2scm(cscalar2cnumber(
-					    pf[ifield]->f.cs[index]));
+				       item = cnumber2scm(cnumber_conj(
+					    cscalar2cnumber(
+						 pf[ifield]->f.cs[index])));
 				       break;
 				  case CVECTOR_FIELD_SMOB:
 				       item = cvector32scm(
-- 
2.43.0


From e653e37699c0125c07d2055bcba2258cacfa55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:16 +0000
Subject: [PATCH 14/37] fix: cvector-field-nonbloch! turned scalar fields into
 invalid vector fields

---
 mpb/field-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 124e77b..87e1b59 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -243,6 +243,8 @@ SCM cvector_field_make(SCM f0)
 void cvector_field_nonblochB(SCM f)
 {
      field_smob *pf = assert_field_smob(f);
+     CHECK(pf->type == CVECTOR_FIELD_SMOB,
+	   "cvector-field-nonbloch! requires a vector field");
      pf->type_char = 'v';
      update_curfield(pf);
      scm_remember_upto_here_1(f);
-- 
2.43.0


From fbe15667af42da0588c48b3a7c7419afff61ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 15/37] fix: output in parallel with inversion symmetry on
 processes without grid points

A division by zero (3d) or a negative block size (2d) if there are more
processes than planes of the grid.
---
 mpb/fields.c             | 6 +++---
 src/maxwell/maxwell_op.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 92b7c23..a286e97 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1046,10 +1046,10 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  first_dim_size = local_dims[0];
 	  first_dim_start = dims[0] - (start[0] + local_dims[0] - 1);
 
-	  if (start[0] == 0)
+	  if (start[0] == 0 && local_dims[0] > 0)
 	       --first_dim_size; /* DC frequency is not in other half */
 	  if (start[0] + local_dims[0] == mdata->last_dim_size / 2 &&
-	      dims[0] % 2 == 0) {
+	      local_dims[0] > 0 && dims[0] % 2 == 0) {
 	       --first_dim_size; /* Nyquist frequency is not in other half */
 	       ++first_dim_start;
 	  }
@@ -1060,7 +1060,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
      else {
 	  last_dim_index = 2;
 	  local_dims[last_dim_index] = mdata->last_dim_size / 2;
-	  if (start[0] == 0) {
+	  if (start[0] == 0 && local_dims[0] > 0) {
 	       first_dim_size = local_dims[0] - 1;
 	       first_dim_start = dims[0] - first_dim_size;
 	       write_start0_special = 1;
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..d04b0a4 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -669,7 +669,7 @@ void maxwell_vectorfield_otherhalf(maxwell_data *d, scalar_complex *field,
      else { /* rank == 3 */
 	  ny = nx;
 	  nx = d->local_ny;
-	  nxmax = local_x_start ? nx - 1 : nx;
+	  nxmax = local_x_start || !nx ? nx - 1 : nx;
 	  n_other = nx * ny;
      }
 #  endif /* HAVE_MPI */
@@ -873,7 +873,7 @@ void maxwell_cscalarfield_otherhalf(maxwell_data *d, scalar_complex *field,
      else { /* rank == 3 */
 	  ny = nx;
 	  nx = d->local_ny;
-	  nxmax = local_x_start ? nx - 1 : nx;
+	  nxmax = local_x_start || !nx ? nx - 1 : nx;
 	  n_other = nx * ny;
      }
 #  endif /* HAVE_MPI */
@@ -1072,7 +1072,7 @@ void maxwell_scalarfield_otherhalf(maxwell_data *d, real *field)
      else { /* rank == 3 */
 	  ny = nx;
 	  nx = d->local_ny;
-	  nxmax = local_x_start ? nx - 1 : nx;
+	  nxmax = local_x_start || !nx ? nx - 1 : nx;
 	  n_other = nx * ny;
      }
 #  endif /* HAVE_MPI */
-- 
2.43.0


From 5b2e67c5cc8ad6bcd11d26d038a8198f6e1629f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 16/37] fix: energy and field integrals and gradients with
 inversion symmetry used an undefined index

The loops over the grid (LOOP_XYZ) do not set j and k, so whether a grid point
has a mirror image was decided from uninitialized variables; the mirrored half
of the cell was missing from the integrals.
---
 mpb/fields.c        | 18 ++----------------
 mpb/material_grid.c |  9 +--------
 2 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index a286e97..bde5bc2 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1357,14 +1357,7 @@ number compute_energy_in_object_list(geometric_object_list objects)
 #ifndef SCALAR_COMPLEX
 			 {
 			      int last_index;
-#  ifdef HAVE_MPI
-			      if (n3 == 1)
-				   last_index = j + local_y_start;
-			      else
-				   last_index = k;
-#  else
-			      last_index = j;
-#  endif
+			      last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
 			      if (last_index != 0 && 2*last_index != last_dim)
 				   energy_sum += energy[xyz_index];
 			 }
@@ -1461,14 +1454,7 @@ cnumber compute_field_integral(function f)
 #ifndef SCALAR_COMPLEX
 	       {
 		    int last_index;
-#  ifdef HAVE_MPI
-		    if (n3 == 1)
-			 last_index = j + local_y_start;
-		    else
-			 last_index = k;
-#  else
-		    last_index = j;
-#  endif
+		    last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
 			 int i1c, i2c, i3c;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index f858139..70b010d 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -431,14 +431,7 @@ void material_grids_addgradient(double *v,
 #ifndef SCALAR_COMPLEX
 	       {
 		    int last_index;
-#  ifdef HAVE_MPI
-		    if (n3 == 1)
-			 last_index = j + local_y_start;
-		    else
-			 last_index = k;
-#  else
-		    last_index = j;
-#  endif
+		    last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
 			 int i1c, i2c, i3c;
-- 
2.43.0


From 8c19e47f217bc75fda0656c206630eff1e64813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 17/37] fix: energy in objects with inversion symmetry assumed
 the mirror image is in the same object

---
 mpb/fields.c | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index bde5bc2..610e792 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1310,6 +1310,18 @@ void output_field_to_file(integer which_component, string filename_prefix)
 
 /**************************************************************************/
 
+/* whether p is in one of the objects (the last one containing it counts),
+   treating an object without a material as "nothing" */
+static int in_object_list(vector3 p, geometric_object_list objects)
+{
+     int n;
+     for (n = objects.num_items - 1; n >= 0; --n)
+	  if (point_in_periodic_fixed_objectp(p, objects.items[n]))
+	       return objects.items[n].material.which_subclass
+		    != MATERIAL_TYPE_SELF;
+     return 0;
+}
+
 /* For curfield an energy density, compute the fraction of the energy
    that resides inside the given list of geometric objects.   Later
    objects in the list have precedence, just like the ordinary
@@ -1346,24 +1358,24 @@ number compute_energy_in_object_list(geometric_object_list objects)
 
      LOOP_XYZ(mdata) {
 	       vector3 p;
-	       int n;
 	       p.x = i1 * s1 - c1; p.y = i2 * s2 - c2; p.z = i3 * s3 - c3;
-	       for (n = objects.num_items - 1; n >= 0; --n)
-		    if (point_in_periodic_fixed_objectp(p, objects.items[n])) {
-			 if (objects.items[n].material.which_subclass
-			     == MATERIAL_TYPE_SELF)
-			      break; /* treat as a "nothing" object */
-			 energy_sum += energy[xyz_index];
+	       if (in_object_list(p, objects))
+		    energy_sum += energy[xyz_index];
 #ifndef SCALAR_COMPLEX
-			 {
-			      int last_index;
-			      last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
-			      if (last_index != 0 && 2*last_index != last_dim)
-				   energy_sum += energy[xyz_index];
-			 }
-#endif
-			 break;
+	       {
+		    int last_index;
+		    last_index = n3 > 1 ? i3 : (n2 > 1 ? i2 : i1);
+
+		    /* the mirror image need not be in the same object */
+		    if (last_index != 0 && 2*last_index != last_dim) {
+			 p.x = (i1 ? (n1 - i1) : 0) * s1 - c1;
+			 p.y = (i2 ? (n2 - i2) : 0) * s2 - c2;
+			 p.z = (i3 ? (n3 - i3) : 0) * s3 - c3;
+			 if (in_object_list(p, objects))
+			      energy_sum += energy[xyz_index];
 		    }
+	       }
+#endif
 	}}}
 
      mpi_allreduce_1(&energy_sum, real, SCALAR_MPI_TYPE,
-- 
2.43.0


From 597d905b7dbc182f03e49cf24feb91225d3250e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 18/37] fix: asymmetric set of reciprocal lattice vectors for
 odd grid sizes

---
 src/maxwell/maxwell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..3a7617f 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -421,7 +421,8 @@ void update_maxwell_data_k(maxwell_data *d, real k[3],
 			   real G1[3], real G2[3], real G3[3])
 {
      int nx = d->nx, ny = d->ny, nz = d->nz;
-     int cx = MAX2(1,d->nx/2), cy = MAX2(1,d->ny/2), cz = MAX2(1,d->nz/2);
+     /* round up, so that the G vectors are symmetric for odd sizes */
+     int cx = (d->nx+1)/2, cy = (d->ny+1)/2, cz = (d->nz+1)/2;
      k_data *kpG = d->k_plus_G;
      real *kpGn2 = d->k_plus_G_normsqr;
      int x, y, z;
-- 
2.43.0


From 991624a3cb325877df5fccf1981013bc31408ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 19/37] fix: group velocities of all bands overwrote the
 eigenvectors if mu != 1

maxwell_compute_H_from_B wrote H over the B fields in H whenever all bands
are solved in one block (Hblock is H then), so that the second and third
component, and everything computed afterwards, were wrong.  Use the work
matrix W[1] for H, as compute_1_group_velocity_component does.
---
 mpb/mpb.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 0927d37..25d02c4 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -914,23 +914,26 @@ number_list compute_group_velocity_component(vector3 d)
      /* now, compute group_v.items = diag Re <H| curl 1/eps i u x |H>: */
 
      /* ...we have to do this in blocks of eigensolver_block_size since
-	the work matrix W[0] may not have enough space to do it all at once. */
+	the work matrices W may not have enough space to do it all at once.
+	(The magnetic field goes into W[1], not Hblock, which may be H.) */
 
-     for (ib = 0; ib < num_bands; ib += Hblock.alloc_p) {
+     CHECK(nwork_alloc > 1, "eigensolver-nwork is too small");
+
+     for (ib = 0; ib < num_bands; ib += W[1].alloc_p) {
 	  if (ib + mdata->num_bands > num_bands) {
 	       maxwell_set_num_bands(mdata, num_bands - ib);
 	       evectmatrix_resize(&W[0], num_bands - ib, 0);
-	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
+	       evectmatrix_resize(&W[1], num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
+          maxwell_compute_H_from_B(mdata, H, W[1],
                                    (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
-	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
+                                   ib, 0, W[1].p);
+	  maxwell_ucross_op(W[1], W[0], mdata, u);
+	  evectmatrix_XtY_diag_real(W[1], W[0], gv_scratch,
 				    gv_scratch + group_v.num_items);
 	  {
 	       int ip;
-	       for (ip = 0; ip < Hblock.p; ++ip)
+	       for (ip = 0; ip < W[1].p; ++ip)
 		    group_v.items[ib + ip] = gv_scratch[ip];
 	  }
      }
@@ -938,7 +941,7 @@ number_list compute_group_velocity_component(vector3 d)
      free(gv_scratch);
 
      /* Reset scratch matrix sizes: */
-     evectmatrix_resize(&Hblock, Hblock.alloc_p, 0);
+     evectmatrix_resize(&W[1], W[1].alloc_p, 0);
      evectmatrix_resize(&W[0], W[0].alloc_p, 0);
      maxwell_set_num_bands(mdata, Hblock.alloc_p);
 
-- 
2.43.0


From 92cc8ae41440069b4226060e32b9be4c8c42be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 20/37] fix: endless line search after a step of zero length

The length of the previous step is the starting guess of the next one
where the energy is near a maximum; starting from a guess of zero the
line search never terminates (and the approximate one divides by zero).
Keep the last nonzero length instead.
---
 src/matrices/eigensolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrices/eigensolver.c b/src/matrices/eigensolver.c
index a44223f..5f096ef 100644
--- a/src/matrices/eigensolver.c
+++ b/src/matrices/eigensolver.c
@@ -750,7 +750,8 @@ void eigensolver_lagrange(evectmatrix Y, real *eigenvals,
                constraint(Y, constraint_data);
 
 	  prev_traceGtX = traceGtX;
-          prev_theta = theta;
+          if (theta != 0)
+               prev_theta = theta;
           prev_E = E;
 
 	  /* Finally, we use the times for the various operations to
-- 
2.43.0


From 1dba0921bb6f0f91e5c54b75ffc5ef250cf26427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 21/37] fix: group velocities before solving crashed if the k
 index was set

compute-1-group-velocity-component also returned an undefined number
when it was called too early.
---
 mpb/mpb.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 25d02c4..f0a5573 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -898,7 +898,7 @@ number_list compute_group_velocity_component(vector3 d)
 	  mpi_one_fprintf(stderr, "init-params must be called first!\n");
 	  return group_v;
      }
-     if (!kpoint_index) {
+     if (!kpoint_index || freqs.num_items < num_bands) {
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
@@ -970,7 +970,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 {
      real u[3];
      int ib = b - 1;
-     real group_v, scratch;
+     real group_v = 0, scratch;
 
      curfield_reset();
 
@@ -978,7 +978,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 	  mpi_one_fprintf(stderr, "init-params must be called first!\n");
 	  return group_v;
      }
-     if (!kpoint_index) {
+     if (!kpoint_index || freqs.num_items < num_bands) {
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
-- 
2.43.0


From 8639e246dd42c4a038e69a612829d422f77df742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 22/37] fix: group velocities if mu is not uniform

The magnetic field H = B/mu has a longitudinal part where mu varies,
which was left out of u x H in the expectation value.
---
 mpb/mpb.c                | 10 ++++++++--
 src/maxwell/maxwell.h    |  3 +++
 src/maxwell/maxwell_op.c | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index f0a5573..349b1da 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -928,7 +928,10 @@ number_list compute_group_velocity_component(vector3 d)
           maxwell_compute_H_from_B(mdata, H, W[1],
                                    (scalar_complex *) mdata->fft_data,
                                    ib, 0, W[1].p);
-	  maxwell_ucross_op(W[1], W[0], mdata, u);
+	  if (mdata->mu_inv)
+	       maxwell_ucross_op_from_B(H, ib, W[0], W[1].p, mdata, u);
+	  else
+	       maxwell_ucross_op(W[1], W[0], mdata, u);
 	  evectmatrix_XtY_diag_real(W[1], W[0], gv_scratch,
 				    gv_scratch + group_v.num_items);
 	  {
@@ -994,7 +997,10 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      maxwell_compute_H_from_B(mdata, H, W[1],
                               (scalar_complex *) mdata->fft_data,
                               ib, 0, 1);
-     maxwell_ucross_op(W[1], W[0], mdata, u);
+     if (mdata->mu_inv)
+	  maxwell_ucross_op_from_B(H, ib, W[0], 1, mdata, u);
+     else
+	  maxwell_ucross_op(W[1], W[0], mdata, u);
      evectmatrix_XtY_diag_real(W[1], W[0], &group_v, &scratch);
 
      /* Reset scratch matrix sizes: */
diff --git a/src/maxwell/maxwell.h b/src/maxwell/maxwell.h
index 7e42f2b..fb7c6b5 100644
--- a/src/maxwell/maxwell.h
+++ b/src/maxwell/maxwell.h
@@ -217,6 +217,9 @@ extern void maxwell_preconditioner2(evectmatrix Xin, evectmatrix Xout,
 
 extern void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 			      maxwell_data *d, const real u[3]);
+extern void maxwell_ucross_op_from_B(evectmatrix Bin, int Bin_band_start,
+				     evectmatrix Xout, int cur_num_bands,
+				     maxwell_data *d, const real u[3]);
 
 extern void maxwell_parity_constraint(evectmatrix X, void *data);
 extern void maxwell_zparity_constraint(evectmatrix X, void *data);
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index d04b0a4..bd0abe3 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -1332,3 +1332,41 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
                                    cur_band_start, cur_num_bands, scale);
      }
 }
+
+/* As maxwell_ucross_op applied to cur_num_bands bands of the H field that
+   belongs to the B field in Bin, starting at Bin_band_start, including
+   the longitudinal part that H (but not B) has where mu varies. */
+void maxwell_ucross_op_from_B(evectmatrix Bin, int Bin_band_start,
+			      evectmatrix Xout, int cur_num_bands,
+			      maxwell_data *d, const real u[3])
+{
+     int i, b, ib;
+     real scale = -1.0 / Xout.N; /* as in maxwell_ucross_op */
+
+     CHECK(d, "null maxwell data pointer!");
+     CHECK(d->mu_inv, "H = B has no longitudinal part");
+
+     /* compute the operator, num_fft_bands at a time: */
+     for (b = 0; b < cur_num_bands; b += d->num_fft_bands) {
+	  int nb = MIN2(d->num_fft_bands, cur_num_bands - b);
+	  scalar_complex *cdata = (scalar_complex *) d->fft_data;
+
+	  /* compute H in position space, then u x H: */
+	  maxwell_compute_h_from_H(d, Bin, cdata, Bin_band_start + b, nb);
+	  maxwell_compute_e_from_d_(d, cdata, nb, d->mu_inv);
+	  for (ib = 0; ib < d->fft_output_size * nb; ++ib) {
+	       scalar_complex h[3];
+	       for (i = 0; i < 3; ++i)
+		    h[i] = cdata[3*ib + i];
+	       for (i = 0; i < 3; ++i) {
+		    int j = (i + 1) % 3, k = (i + 2) % 3;
+		    CASSIGN_SCALAR(cdata[3*ib + i],
+				   u[j] * h[k].re - u[k] * h[j].re,
+				   u[j] * h[k].im - u[k] * h[j].im);
+	       }
+	  }
+
+	  maxwell_compute_e_from_d(d, cdata, nb);
+	  maxwell_compute_H_from_e(d, Xout, cdata, b, nb, scale);
+     }
+}
-- 
2.43.0


From 2f62245d5d8674971e98b28aa33d22e62ee75229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 23/37] fix: set-parity refuses values that are not parities

---
 mpb/mpb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 349b1da..048249f 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -358,6 +358,8 @@ void set_parity(integer p)
 
      if (p == -1)
 	  p = last_p < 0 ? NO_PARITY : last_p;
+     CHECK(!(p & ~(EVEN_Z_PARITY | ODD_Z_PARITY | EVEN_Y_PARITY | ODD_Y_PARITY)),
+	   "unknown parity");
 
      set_maxwell_data_parity(mdata, p);
      CHECK(mdata->parity == p, "k vector incompatible with parity");
-- 
2.43.0


From d2bb9b117484619fe2951d7a22bce5c1196a91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 24/37] fix: the parity output variable is set even if nothing
 is solved

---
 mpb/mpb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 048249f..f9fff7c 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -620,6 +620,12 @@ void solve_kpoint(vector3 kvector)
 
      curfield_reset();
 
+     /* the output variables are exported even if nothing is solved */
+     if (!parity) {
+	  CHK_MALLOC(parity, char, 1);
+	  parity[0] = 0;
+     }
+
      if (num_bands == 0) {
 	  mpi_one_printf("  num-bands is zero, not solving for any bands\n");
 	  return;
-- 
2.43.0


From 424a7c41ff5974cd77b8a54eafaae18228c50986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 25/37] fix: no NaN frequency from an eigenvalue that is
 negative by rounding

---
 mpb/mpb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index f9fff7c..927f48e 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -855,7 +855,8 @@ void solve_kpoint(vector3 kvector)
 		    vector3_norm(matrix3x3_vector3_mult(Gm, kvector)));
      for (i = 0; i < num_bands; ++i) {
 	  freqs.items[i] =
-	       negative_epsilon_okp ? eigvals[i] : sqrt(eigvals[i]);
+	       negative_epsilon_okp ? eigvals[i] :
+	       (eigvals[i] > 0 ? sqrt(eigvals[i]) : 0); /* < 0 by rounding */
 	  mpi_one_printf(", %g", freqs.items[i]);
      }
      mpi_one_printf("\n");
-- 
2.43.0


From 8279cdf57c32c3ef3d73b91f347547fafe762b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 26/37] fix: parities of bands were normalised by half of the
 plane waves only

---
 src/maxwell/maxwell_constraints.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..c415c43 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,15 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
+		    norm_scratch[b] += (ij == ij2 ? 0.5 : 1.0) *
                          (SCALAR_RE(u) * SCALAR_RE(u) +
                           SCALAR_IM(u) * SCALAR_IM(u) +
                           SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+                          SCALAR_IM(v) * SCALAR_IM(v) +
+                          SCALAR_RE(u2) * SCALAR_RE(u2) +
+                          SCALAR_IM(u2) * SCALAR_IM(u2) +
+                          SCALAR_RE(v2) * SCALAR_RE(v2) +
+                          SCALAR_IM(v2) * SCALAR_IM(v2));
 	       }
 	  }
 
@@ -289,11 +293,15 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
+			 norm_scratch[b] += (ijk == ijk2 ? 0.5 : 1.0) *
 			      (SCALAR_RE(v) * SCALAR_RE(v) +
 			       SCALAR_IM(v) * SCALAR_IM(v) +
 			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			       SCALAR_IM(u) * SCALAR_IM(u) +
+			       SCALAR_RE(v2) * SCALAR_RE(v2) +
+			       SCALAR_IM(v2) * SCALAR_IM(v2) +
+			       SCALAR_RE(u2) * SCALAR_RE(u2) +
+			       SCALAR_IM(u2) * SCALAR_IM(u2));
 		    }
 	       }
 	  }
-- 
2.43.0


From 4e46595cb376c13e0598f8aca7d00d15f9884b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:31 +0000
Subject: [PATCH 27/37] fix: randomize-fields? filed and printed random fields
 instead of the computed ones

---
 mpb/mpb.scm.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 9171c1c..39fde00 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -611,7 +611,7 @@
 (define (run-parity p reset-fields . band-functions)
  (if (and randomize-fields?
           (not (member randomize-fields band-functions)))
-     (set! band-functions (cons randomize-fields band-functions)))
+     (set! band-functions (append band-functions (list randomize-fields))))
  (set! total-run-time (+ total-run-time
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
-- 
2.43.0


From 64d53e6b511f51238444947c9a444bc6c3dbc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 28/37] fix: first-brillouin-zone moved k points along
 directions that are not periodic

---
 mpb/mpb.scm.in | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 39fde00..e9dcf53 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -407,23 +407,26 @@
 ; first Brillouin zone (not necessarily the irreducible Brillouin zone):
 (define (first-brillouin-zone k)
   (define (n k) (vector3-norm (reciprocal->cartesian k)))
+  (define (periodic v) ; there are no reciprocal vectors along no-size
+    (vector-map (lambda (x s) (if (= s no-size) 0 x))
+		v (object-property-value geometry-lattice 'size)))
   (define (try+ k v)
     (if (< (n (vector3+ k v)) (n k)) (try+ (vector3+ k v) v) k))
   (define (try k v) (try+ (try+ k v) (vector3- (vector3 0) v)))
-  (define trylist (list 
+  (define trylist (map periodic (list
     #(1 0 0) #(0 1 0) #(0 0 1)
     #(0 1 1) #(1 0 1) #(1 1 0)
     #(0 1 -1) #(1 0 -1) #(1 -1 0)
     #(1 1 1)
     #(-1 1 1) #(1 -1 1) #(1 1 -1)
-  ))
+  )))
   (define (try-all k)
     (fold-left try k trylist)
   )
   (define (try-all&repeat k)
     (let ((knew (try-all k)))
       (if (< (n knew) (n k)) (try-all&repeat knew) k)))
-  (let ((k0 (vector3- k (vector-map round k))))
+  (let ((k0 (vector3- k (periodic (vector-map round k)))))
     (if (< (n k0) (n k)) (try-all&repeat k0) (try-all&repeat k))))
 
 ; ****************************************************************
-- 
2.43.0


From 6367907cce0f3ab28ecbaf106db521adc19d4b08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 29/37] fix: get-dfield before solving crashed if the k index
 was set

---
 mpb/fields.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 610e792..c6a3204 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -56,7 +56,7 @@ void get_dfield(int which_band)
 			  "init-params must be called before get-dfield!\n");
 	  return;
      }
-     if (!kpoint_index) {
+     if (!kpoint_index || freqs.num_items < H.p) {
 	  mpi_one_fprintf(stderr,
 			  "solve-kpoint must be called before get-dfield!\n");
 	  return;
-- 
2.43.0


From 435018cdaf92305641fba0ff4fdf3a6c0f2c37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 30/37] fix: dot-eigenvectors overwrote the current field
 without discarding it if mu is not 1

---
 mpb/matrix-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index da83721..577ab16 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -306,6 +306,8 @@ SCM dot_eigenvectors(SCM mo, integer b_start)
          sqmatrix S1 = create_sqmatrix(m->p);
          sqmatrix S2 = create_sqmatrix(m->p);
 
+         curfield_reset(); /* fft_data, used as scratch here, is overwritten */
+
          for (ib = b_start-1; ib < final_band; ib += W[0].alloc_p) {
              if (ib + W[0].alloc_p > final_band) {
                  maxwell_set_num_bands(mdata, final_band - ib);
-- 
2.43.0


From 59fd92d67ca8523c37277dcbed0d498f687e5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:32 +0000
Subject: [PATCH 31/37] fix: normals of blocks and ellipsoids were wrong in
 lattices that are not orthogonal

---
 mpb/epsilon.c |  4 ++--
 mpb/medium.c  | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpb/epsilon.c b/mpb/epsilon.c
index 98282e9..0253b33 100644
--- a/mpb/epsilon.c
+++ b/mpb/epsilon.c
@@ -289,9 +289,9 @@ static int mean_epsilon_func(symmetric_matrix *meps,
      }
 
      if (id1 > id2)
-	  normal = normal_to_fixed_object(vector3_minus(p, shiftby1), *o1);
+	  normal = normal_to_surface(vector3_minus(p, shiftby1), o1);
      else
-	  normal = normal_to_fixed_object(vector3_minus(p, shiftby2), *o2);
+	  normal = normal_to_surface(vector3_minus(p, shiftby2), o2);
 
      n[0] = no_size_x ? 0 : normal.x / geometry_lattice.size.x;
      n[1] = no_size_y ? 0 : normal.y / geometry_lattice.size.y;
diff --git a/mpb/medium.c b/mpb/medium.c
index 818553e..c8b43e1 100644
--- a/mpb/medium.c
+++ b/mpb/medium.c
@@ -72,6 +72,18 @@ static int variable_material(int which_subclass)
 #define epsilon_CURFIELD_TYPE 'n'
 #define mu_CURFIELD_TYPE 'm'
 
+/* The surface normal of o at p, in the lattice basis.  For blocks and
+   ellipsoids, libctl returns the gradient with respect to the lattice
+   coordinates, i.e. components in the dual (reciprocal) basis. */
+static vector3 normal_to_surface(vector3 p, const geometric_object *o)
+{
+     vector3 normal = normal_to_fixed_object(p, *o);
+     if (o->which_subclass == BLOCK)
+	  normal = matrix3x3_vector3_mult(
+	       matrix3x3_inverse(geometry_lattice.metric), normal);
+     return normal;
+}
+
 #include "epsilon.c"
 #include "mu.c"
 
-- 
2.43.0


From 8937f3557a82d47cf509c52ce4a8dd7d71d6a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:42 +0000
Subject: [PATCH 32/37] fix: mpb-data averaged data over phases in directions
 they do not have

---
 utils/mpb-data.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..ce404b7 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -246,6 +246,19 @@ void map_data(real *d_in_re, real *d_in_im, int n_in[3],
      }
 }
 
+/* Dimensions that the data do not have are not repeated: otherwise, data
+   with a Bloch wavevector in those directions would be averaged over
+   cells with different phases. */
+static matrix3x3 single_period(matrix3x3 coord_map, int rank,
+			       real multiply_size[3])
+{
+     if (rank < 3 && multiply_size[2] != 0)
+	  coord_map.c2 = vector3_scale(1.0 / multiply_size[2], coord_map.c2);
+     if (rank < 2 && multiply_size[1] != 0)
+	  coord_map.c1 = vector3_scale(1.0 / multiply_size[1], coord_map.c1);
+     return coord_map;
+}
+
 void handle_dataset(matrixio_id in_file, matrixio_id out_file,
 		    const char *name_re, const char *name_im,
 		    matrix3x3 Rout, matrix3x3 coord_map,
@@ -326,7 +339,8 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      }
 
      map_data(d_in_re, d_in_im, in_dims, d_out_re, d_out_im, out_dims,
-	      coord_map, kvector, pick_nearest, transpose);
+	      single_period(coord_map, rank, multiply_size),
+	      kvector, pick_nearest, transpose);
 
      if (d_out_im) { /* multiply * scaleby for complex data */
 	  for (i = 0; i < N; ++i) {
@@ -474,7 +488,8 @@ void handle_cvector_dataset(matrixio_id in_file, matrixio_id out_file,
 
 	  map_data(d_in[dim][0], d_in[dim][1], in_dims,
 		   d_out_re, d_out_im, out_dims,
-		   coord_map, kvector, pick_nearest, transpose);
+		   single_period(coord_map, rank, multiply_size),
+		   kvector, pick_nearest, transpose);
 
 	  for (i = 0; i < N; ++i) { /* multiply * scaleby */
 	       scalar_complex d;
-- 
2.43.0


From 11e6afb9c66f275aac08169fd1167ecbd183d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:54 +0000
Subject: [PATCH 33/37] fix: evectmatrix_aXpbY and sqmatrix_aApbB with X and Y
 equal gave a(1+b)X instead of (a+b)X

---
 src/matrices/evectmatrix.c | 10 +++++++---
 src/matrices/sqmatrix.c    | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..1bcefbe 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -92,10 +92,14 @@ void evectmatrix_aXpbY(real a, evectmatrix X, real b, evectmatrix Y)
 {
      CHECK(X.n == Y.n && X.p == Y.p, "arrays not conformant");
      
-     if (a != 1.0)
-	  blasglue_rscal(X.n * X.p, a, X.data, 1);
+     if (X.data == Y.data) /* scaling X by a would also scale Y */
+	  blasglue_rscal(X.n * X.p, a + b, X.data, 1);
+     else {
+	  if (a != 1.0)
+	       blasglue_rscal(X.n * X.p, a, X.data, 1);
 
-     blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+	  blasglue_axpy(X.n * X.p, b, Y.data, 1, X.data, 1);
+     }
      evectmatrix_flops += X.N * X.c * X.p * 3;
 }
 
diff --git a/src/matrices/sqmatrix.c b/src/matrices/sqmatrix.c
index 49b9531..38c1a73 100644
--- a/src/matrices/sqmatrix.c
+++ b/src/matrices/sqmatrix.c
@@ -189,10 +189,14 @@ void sqmatrix_aApbB(real a, sqmatrix A, real b, sqmatrix B)
 {
      CHECK(A.p == B.p, "arrays not conformant");
 
-     if (a != 1.0)
-          blasglue_rscal(A.p * A.p, a, A.data, 1);
+     if (A.data == B.data) /* scaling A by a would also scale B */
+          blasglue_rscal(A.p * A.p, a + b, A.data, 1);
+     else {
+          if (a != 1.0)
+               blasglue_rscal(A.p * A.p, a, A.data, 1);
 
-     blasglue_axpy(A.p * A.p, b, B.data, 1, A.data, 1);
+          blasglue_axpy(A.p * A.p, b, B.data, 1, A.data, 1);
+     }
 }
 
 /* U <- 1/U.  U must be Hermitian and, if positive_definite != 0,
-- 
2.43.0


From c55f74fc297e6429d94ec6f75b379a8552cbd79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 34/37] fix: randomize-material-grid! turned values just above
 1 into values near 0 instead of mirroring them

---
 mpb/material_grid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 70b010d..f2fe521 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -710,7 +710,7 @@ void randomize_material_gridB(material_grid g, number noise)
 	  for (i = 0; i < n; ++i) {
 	       double u = grid[i] + noise * (-1 + rand() * 2.0/RAND_MAX);
 	       while (u < 0 || u > 1) { /* mirror boundary conditions */
-		    if (u > 1) u = 1 - u;
+		    if (u > 1) u = 2 - u;
 		    if (u < 0) u = -u;
 	       }
 	       grid[i] = u;
-- 
2.43.0


From b125abca48d0a79fe07bc90bb9de6637521f9ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 35/37] fix: material-grid gradients printed in parallel were
 those of one process only

---
 mpb/material_grid.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index f2fe521..1523a6c 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -459,9 +459,12 @@ void print_material_grids_gradient(integer band)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int i, ntot = material_grids_ntot(grids, ngrids);
-     double *grad = (double *) malloc(sizeof(double) * ntot);
-     for (i = 0; i < ntot; ++i) grad[i] = 0;
-     material_grids_addgradient(grad, 1.0, band, grids, ngrids);
+     double *grad = (double *) malloc(sizeof(double) * ntot * 2);
+     double *work = grad + ntot;
+     for (i = 0; i < ntot; ++i) work[i] = 0;
+     material_grids_addgradient(work, 1.0, band, grids, ngrids);
+     /* each process has only its share of the grid points */
+     mpi_allreduce(work, grad, ntot, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      for (i = 0; i < ntot; ++i)
 	  mpi_one_printf(", %g", grad[i]);
      free(grad);
@@ -483,7 +486,7 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
-     dfdu = u[iu];
+     mpi_allreduce(&u[iu], &dfdu, 1, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      material_grids_get(u, grids, ngrids);
      u[iu] += du;
      material_grids_set(u, grids, ngrids);
-- 
2.43.0


From e6426fc444bcc66c13e7a39f54da736ac7e6366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 36/37] fix: gradients of a default material grid ignored
 points in objects of the default material

---
 mpb/material_grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 1523a6c..3651c4a 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -322,6 +322,8 @@ static void material_grids_addgradient_point(double *v,
      int kind;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_TYPE_SELF)
+	  tp = 0; /* the default material, as in epsilon_func */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
@@ -553,6 +555,8 @@ void print_material_grids_deps_du(void)
 	       p.x = i * s1 - c1; p.y = j * s2 - c2; p.z = k * s3 - c3;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_TYPE_SELF)
+	  tp = 0; /* the default material, as in epsilon_func */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
-- 
2.43.0


From 73d52e7ac9934cfe50c732ee5a2fa5eb9494dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 37/37] fix: gradients of a product of material grids were NaN
 if a grid is zero at a point

---
 mpb/material_grid.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 3651c4a..3f756c6 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -95,11 +95,14 @@ static int compatible_matgrids(const material_grid *mg,
 }
 
 static int matgrid_val_count = 0; /* cache for gradient calculation */
+static int matgrid_val_zeros = 0; /* number of values that are zero... */
+static double matgrid_val_prod = 1.0; /* ...and the product of the others */
 double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   const material_grid *mg)
 {
      double uprod = 1.0, umin = 1.0, usum = 0.0, u;
-     matgrid_val_count = 0;
+     matgrid_val_count = matgrid_val_zeros = 0;
+     matgrid_val_prod = 1.0;
      CHECK(sizeof(real) == sizeof(double), "material grids require double precision");
      if (tp) {
 	  do {
@@ -110,6 +113,7 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 	       if (u < umin) umin = u;
 	       uprod *= u;
 	       usum += u; ++matgrid_val_count;
+	       if (u == 0) ++matgrid_val_zeros; else matgrid_val_prod *= u;
 	       tp = geom_tree_search_next(p, tp, &oi);
 	  } while (tp &&
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
@@ -123,6 +127,7 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 	  if (u < umin) umin = u;
 	  uprod *= u;
 	  usum += u; ++matgrid_val_count;
+	  if (u == 0) ++matgrid_val_zeros; else matgrid_val_prod *= u;
      }
      return (mg->material_grid_kind == U_MIN ? umin
 	     : (mg->material_grid_kind == U_PROD ? uprod
@@ -296,7 +301,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
 	   (U(x,y2,z2)*(1.0-dx) + U(x2,y2,z2)*dx) * dy) * dz);
 
      if (ukind == U_MIN && u != uval) return;
-     if (ukind == U_PROD) scaleby *= uval / u;
+     if (ukind == U_PROD)
+	  scaleby *= u != 0 ? uval / u
+	       : (matgrid_val_zeros == 1 ? matgrid_val_prod : 0.0);
 
      D(x,y,z) += (1.0-dx) * (1.0-dy) * (1.0-dz) * scaleby;
      D(x2,y,z) += dx * (1.0-dy) * (1.0-dz) * scaleby;
-- 
2.43.0


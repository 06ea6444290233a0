From 379cfc97c712f2422efb4a0dfd32a44d625e8e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 01/69] fix: accumulate the texture gradient over all the
 samples of a texel

bilinear_sample_B overwrote the adjoint of the four texels it reads instead of
adding to it, so that only the last pixel that sampled a texel contributed.
---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..55f050d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -618,10 +618,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From 23a4d29dc900ca96530a5559b06da656ca8dc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 02/69] fix: do not draw pixels left of the left edge when
 strict_edge is false

The left bound was clamped to x_max, so that a row where the triangle starts
after x_max (the last image column, or the rightmost pixel of its bounding box)
still had its last pixel drawn outside of the triangle.
---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 55f050d..6399015 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -892,7 +892,7 @@ inline void get_xrange(int width, const double *left_eq, const double *right_eq,
 	else
 	{
 		// pixels falling exactly on an edge shared by two triangle will be drawn twice
-		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max);
+		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max + 1);
 	}
 	if (temp_x > x_begin)
 		x_begin = temp_x;
-- 
2.43.0


From c8484b2e6a37ef01adb036cc17bfd76e1d15ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:27 +0000
Subject: [PATCH 03/69] fix: never draw a face that has a vertex behind the
 camera

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 6399015..6ba7a08 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2783,7 +2783,7 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	float pixel_center_offset = scene.integer_pixel_centers ? 0 : 0.5;
 
 	for (int k = 0; k < scene.nb_triangles; k++)
-		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
+		if ((signedAreaV[k] > 0) || (!scene.backface_culling && signedAreaV[k] != 0))
 		{
 			unsigned int *face = &scene.faces[k * 3];
 			double ij[3][2];
-- 
2.43.0


From 2a8b2024719a30ca043245a83d516502c5e353d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 04/69] fix: antialias the edges that are exactly horizontal or
 vertical

---
 C++/DifferentiableRenderer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 6ba7a08..c02bcfd 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2636,6 +2636,14 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 				x_end = temp_x;
 			}
 		}
+		else if (ineq[3 * k] == 0)
+		{
+			// the border is horizontal: the whole line is on the same side
+			if (numerator > 0)
+			{
+				x_end = x_begin - 1;
+			}
+		}
 		else
 		{
 			short int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
-- 
2.43.0


From a6254d1cfe1fb2b1cee257362f51fe21af45aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 05/69] fix: no NaN gradient when a silhouette edge passes
 exactly through a pixel center

---
 C++/DifferentiableRenderer.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index c02bcfd..9d554c0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1735,7 +1735,8 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 
 					// restoring the color before edge drawned
 
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
+					if (T != 0) // otherwise the color before is lost and this edge keeps its own
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;
 
 					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
 
@@ -2012,7 +2013,8 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 					T_B += -image_B[sizeA * indx + k] * A[k] * L;
 					A_B[k] += L * (1 - T) * image_B[sizeA * indx + k];
 					L_B += image_B[sizeA * indx + k] * (1 - T) * A[k];
-					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
+					if (T != 0) // otherwise the color before is lost and this edge keeps its own
+						image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A[k] * L) / T;
 					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];
 					image_B[sizeA * indx + k] *= T;
 				}
@@ -2307,8 +2309,11 @@ void rasterize_edge_textured_gouraud_error_B(double Vxy[][2], double Vxy_B[][2],
 				//	err_buffer[indx]+= (1-Tr)*Err;
 				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
+				if (Tr != 0) // otherwise the error before is lost and this edge keeps its own
+				{
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+				}
 				Tr_B += err_buffer_B[indx] * err_buffer[indx];
 				err_buffer_B[indx] *= Tr;
 
@@ -2571,8 +2576,11 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 				//	err_buffer[indx]+= (1-Tr)*Err;
 				Tr_B += -Err * err_buffer_B[indx];
 				Err_B += (1 - Tr) * err_buffer_B[indx];
-				err_buffer[indx] -= (1 - Tr) * Err;
-				err_buffer[indx] /= Tr;
+				if (Tr != 0) // otherwise the error before is lost and this edge keeps its own
+				{
+					err_buffer[indx] -= (1 - Tr) * Err;
+					err_buffer[indx] /= Tr;
+				}
 				Tr_B += err_buffer_B[indx] * err_buffer[indx];
 				err_buffer_B[indx] *= Tr;
 
-- 
2.43.0


From 35488bc9dc75eed01cb8988044f1c2ee46e099de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 06/69] fix: count each pixel once in the gradient of a
 textured face

---
 C++/DifferentiableRenderer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9d554c0..bc6e024 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1340,6 +1340,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 				{
 					A_B[k] += image_B[sizeA * indx + k] * L;
 					L_B += image_B[sizeA * indx + k] * A[k];
+					image_B[sizeA * indx + k] = 0; // the pixel was drawn once
 				}
 				bilinear_sample_B(A, A_B, Texture, Texture_B, Texture_size, UV, UV_B, sizeA);
 				for (int k = 0; k < 2; k++)
-- 
2.43.0


From ba30e906d996e87bbeaca3811faf5299d09f8aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 07/69] fix: draw the faces that extend further than 32767
 pixels from the origin

---
 C++/DifferentiableRenderer.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index bc6e024..a9710eb 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -630,6 +630,16 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 	}
 }
 
+inline int clamp_to_short(double x)
+{
+	// pixel coordinates are stored in short int, vertices can be further away
+	if (x > SHRT_MAX - 1)
+		return SHRT_MAX - 1;
+	if (x < SHRT_MIN + 1)
+		return SHRT_MIN + 1;
+	return (int)x;
+}
+
 void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], double xy1_to_bary[9], double edge_eq[][3], bool strict_edge, int &x_min, int &x_max, int *y_begin, int *y_end, int *left_edge_id, int *right_edge_id)
 {
 
@@ -676,39 +686,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = clamp_to_short(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = clamp_to_short(ceil(x_sorted[0]));
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = clamp_to_short(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = clamp_to_short(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = clamp_to_short(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = clamp_to_short(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = clamp_to_short(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = clamp_to_short(ceil(y_sorted[1]));
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = clamp_to_short(floor(y_sorted[2]));
 
 	// set left_edge_id and right_edge_id
 
@@ -1441,7 +1451,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = clamp_to_short(floor(Vxy[k][1] - sigma)) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1452,7 +1462,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = clamp_to_short(floor(Vxy[k][1] + sigma));
 	}
 	if (y_end > height - 1)
 	{
-- 
2.43.0


From dd69efd5bbbb5f3ffd7fb18e8319a8e0305fccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 08/69] fix: keep the whole uv gradient of a face whose corners
 share a texture coordinate

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index a9710eb..2e4bd65 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -3023,7 +3023,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 								for (int j = 0; j < 2; j++)
 								{
 									uv[i][j] = scene.uv[face_uv[sub[i]] * 2 + j];
-									uv_b[i][j] = scene.uv_b[face_uv[sub[i]] * 2 + j];
+									uv_b[i][j] = 0;
 								}
 
 							double shade[2];
@@ -3046,7 +3046,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
-									scene.uv_b[face_uv[sub[i]] * 2 + j] = uv_b[i][j];
+									scene.uv_b[face_uv[sub[i]] * 2 + j] += uv_b[i][j];
 								}
 							for (int i = 0; i < 2; i++)
 							{
@@ -3124,14 +3124,14 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 					for (int j = 0; j < 2; j++)
 					{
 						uv[i][j] = scene.uv[face_uv[i] * 2 + j];
-						uv_b[i][j] = scene.uv_b[face_uv[i] * 2 + j];
+						uv_b[i][j] = 0;
 					}
 
 				rasterize_triangle_textured_gouraud_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, image, image_b, scene.height, scene.width, scene.nb_colors, scene.texture, scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);
 				for (int i = 0; i < 3; i++)
 					for (int j = 0; j < 2; j++)
 					{
-						scene.uv_b[face_uv[i] * 2 + j] = uv_b[i][j];
+						scene.uv_b[face_uv[i] * 2 + j] += uv_b[i][j];
 					}
 				for (int i = 0; i < 3; i++)
 					scene.shade_b[face[i]] = shade_b[i];
-- 
2.43.0


From 86ee12bf77b0498d6c1773e54efc6ad1231ee33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 09/69] fix: do not read and write before a texture that is one
 texel wide or high

---
 C++/DifferentiableRenderer.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2e4bd65..2ec2225 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -550,9 +550,13 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 	}
 	// bilinear interpolation
 
-	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
+	int fp0[2]; // the same as fp, except in a texture that is one texel wide or high
+	for (int k = 0; k < 2; k++)
+		fp0[k] = max(fp[k], 0);
+
+	int indx00 = sizeA * (fp0[0] + I_size[0] * fp0[1]);
+	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp0[1]);
+	int indx01 = sizeA * (fp0[0] + I_size[0] * (fp[1] + 1));
 	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
 
 	for (int k = 0; k < sizeA; k++)
@@ -596,9 +600,13 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 
 	// bilinear interpolation
 
-	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
+	int fp0[2]; // the same as fp, except in a texture that is one texel wide or high
+	for (int k = 0; k < 2; k++)
+		fp0[k] = max(fp[k], 0);
+
+	int indx00 = sizeA * (fp0[0] + I_size[0] * fp0[1]);
+	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp0[1]);
+	int indx01 = sizeA * (fp0[0] + I_size[0] * (fp[1] + 1));
 	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
 
 	//for(int k=0;k<sizeA;k++)
-- 
2.43.0


From 01a9403c0b310b0fe569f607ef9ca3a86eeb7080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 10/69] fix: raise an exception when the renderer rejects a
 scene instead of aborting the process

---
 deodr/differentiable_renderer_cython.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 0ba78306e5522b048aa94541f51e7988a520c5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 11/69] fix: do not overwrite the caller's adjoint image in the
 backward passes

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..58c327e 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -647,7 +647,7 @@ class Scene2D(Scene2DBase):
                 antialiase_error,
                 obs,
                 err_buffer.copy(),
-                err_buffer_b,
+                err_buffer_b.copy(),
             )
         else:
             renderSceneB(
@@ -679,7 +679,7 @@ class Scene2D(Scene2DBase):
                 sigma,
                 image.copy(),
                 z_buffer,
-                image_b,
+                image_b.copy(),
                 antialiase_error,
                 None,
                 None,
@@ -868,7 +868,7 @@ class Scene3D:
         image, z_buffer = self.store_backward_current["render_2d"]
         # self.ij = np.array(ij)
         # self.colors = np.array(colors)
-        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b)
+        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())
         self.scene_2D = None
 
     @overload
-- 
2.43.0


From b478658cfa99761dbed283923b42682d6814cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:52 +0000
Subject: [PATCH 12/69] fix: put the center of a perspective camera where it
 was asked for

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 58c327e..45ec4c7 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -485,7 +485,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From 71fa87243f547d84f21f9c7690b64aab0c7608ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 13/69] fix: gradient of the projection for rotated cameras and
 skewed intrinsics

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 45ec4c7..2043b0d 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -396,7 +396,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -409,7 +409,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -435,7 +435,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From f1ac8bd11a24a99705fe5a652a1e955f8210c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 14/69] fix: reject the scenes and adjoints whose sizes would
 be read out of bounds

---
 deodr/differentiable_renderer.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 2043b0d..d55dc3b 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -66,14 +66,18 @@ def renderScene(
         width = image.shape[1]
         nb_colors = image.shape[2]
 
+        assert scene.height == height
+        assert scene.width == width
         nb_triangles = scene.faces.shape[0]
-        assert nb_triangles == scene.faces_uv.shape[0]
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
 
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
@@ -110,6 +114,8 @@ def renderScene(
             assert scene.texture.shape[0] > 0
             assert scene.texture.shape[1] > 0
             assert scene.texture.shape[2] == nb_colors
+        else:
+            assert not np.any(np.logical_and(scene.textured, scene.shaded)), "You need to provide a texture"
 
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
@@ -149,12 +155,15 @@ def renderSceneB(
         height = image.shape[0]
         width = image.shape[1]
         nb_colors = image.shape[2]
+        assert scene.height == height
+        assert scene.width == width
         nb_triangles = scene.faces.shape[0]
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
 
         assert nb_colors == scene.colors.shape[1]
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
-        assert nb_triangles == scene.faces_uv.shape[0]
 
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
@@ -162,6 +171,7 @@ def renderSceneB(
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
 
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
@@ -223,18 +233,25 @@ def renderSceneB(
             assert scene.texture.shape[1] == scene.texture_b.shape[1]
             assert scene.texture.shape[2] == nb_colors
             assert scene.texture_b.shape[2] == nb_colors
+        else:
+            assert not np.any(np.logical_and(scene.textured, scene.shaded)), "You need to provide a texture"
 
         if antialiase_error:
             assert err_buffer is not None
+            assert err_buffer_b is not None
             assert obs is not None
             assert err_buffer.shape[0] == height
             assert err_buffer.shape[1] == width
+            assert err_buffer_b.shape[0] == height
+            assert err_buffer_b.shape[1] == width
             assert obs.shape[0] == height
             assert obs.shape[1] == width
+            assert obs.shape[2] == nb_colors
         else:
             assert image_b is not None
             assert image_b.shape[0] == height
             assert image_b.shape[1] == width
+            assert image_b.shape[2] == nb_colors
 
     differentiable_renderer_cython.renderSceneBCpp(
         scene,
-- 
2.43.0


From 26e7ea34b4ed6094ecf83bd03f28891065c9a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:18 +0000
Subject: [PATCH 15/69] fix: deferred rendering of clockwise meshes and with
 perspective correction

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index d55dc3b..10c4380 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1178,7 +1178,9 @@ class Scene3D:
             nb_colors=nb_colors,
             texture=texture,
             background_image=background_image,
+            clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
+            perspective_correct=self.perspective_correct,
             background_color=None,
             integer_pixel_centers=self.integer_pixel_centers,
         )
-- 
2.43.0


From 4b0d84d3b1c6c44001ca98ef5129822619a197fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 16/69] fix: scale the background of the deferred depth channel
 like the depths

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 10c4380..eeb2f95 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1160,7 +1160,7 @@ class Scene3D:
 
         background_image = np.zeros((height, width, nb_colors))
         if "depth" in channels:
-            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max()
+            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max() * depth_scale
 
         scene_2d = Scene2DBase(
             faces=soup_faces,
-- 
2.43.0


From a7a166706f18af7b7b2aadcf9ecfa42a97d08972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 17/69] fix: deferred rendering of vertex colors that do not
 have 3 channels

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index eeb2f95..4f4b475 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1133,7 +1133,7 @@ class Scene3D:
         if self.mesh.uv is None:
             if color:
                 assert self.mesh.vertices_colors is not None
-                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, 3)
+                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, -1)
                 channels["color"] = soup_vertices_colors
         elif uv:
             soup_uv = self.mesh.uv[self.mesh.faces_uv].reshape(soup_nb_vertices, 2)
-- 
2.43.0


From 1bf3d6a518a72490c06978070fceb80385faff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 18/69] fix: use the perspective correction and the background
 image when rendering depth

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 4f4b475..fc1602a 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1044,6 +1044,8 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            perspective_correct=self.perspective_correct,
+            background_image=self.background_image,
             background_color=self.background_color,
             integer_pixel_centers=self.integer_pixel_centers,
         )
-- 
2.43.0


From 9934c8fbf5e23e7238eb0652573061e967d9f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 19/69] fix: compute the adjacencies of a mesh on demand when
 they were not computed at construction

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..83b8d4b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -193,6 +193,7 @@ class TriMesh:
         self._vertices_b = np.zeros((self.nb_vertices, 3))
 
         self.set_vertices(vertices)
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
         if compute_adjacencies:
             self.compute_adjacencies()
 
@@ -229,7 +230,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From 496a65a02757b1d1556c5e940cc878c712d33324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 20/69] fix: keep the orientation of a subdivided mesh

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 83b8d4b..f1b8bcd 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -558,6 +558,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     return ColoredTriMesh(
         vertices=new_vertices,
         faces=new_faces,
+        clockwise=mesh.clockwise,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
     )
-- 
2.43.0


From 56bbc77d90b31ba50e305175d587b515ab68138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 21/69] fix: use the border rules of Loop subdivision on open
 meshes

---
 deodr/triangulated_mesh.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index f1b8bcd..44beac2 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -514,8 +514,23 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
 
     # edge_mid_points = 0.5 * np.sum(self.vertices[self.adjacencies.edges, :], axis=1)
 
+    # the edges that do not have two faces are cut in the middle
+    nb_edge_faces = np.asarray(np.sum(mesh.adjacencies.edges_faces_ones, axis=1)).flatten()
+    border = nb_edge_faces != 2
+    edge_mid_points[border] = 0.5 * np.sum(mesh.vertices[mesh.adjacencies.edges[border], :], axis=1)
+
     beta = (3 / 8) * (1 / mesh.adjacencies.degree_v_e)
     moved_points = beta[:, None] * (mesh.adjacencies.adjacency_vertices * mesh.vertices) + (5 / 8) * mesh.vertices
+    # the vertices of these edges move along the border only
+    border_vertices = mesh.adjacencies.edges[border]
+    border_degree = np.zeros((mesh.nb_vertices))
+    np.add.at(border_degree, border_vertices, 1)
+    border_neighbors_sum = np.zeros((mesh.nb_vertices, 3))
+    np.add.at(border_neighbors_sum, border_vertices, mesh.vertices[border_vertices[:, ::-1]])
+    on_border = border_degree > 0
+    moved_points[on_border] = (
+        0.75 * mesh.vertices[on_border] + 0.25 * (border_neighbors_sum / np.maximum(border_degree, 1)[:, None])[on_border]
+    )
     # moved_points = self.vertices
 
     new_vertices = np.vstack((moved_points, edge_mid_points))
-- 
2.43.0


From bf1ea5c34f830611aea5754c2fb8c204048c0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 22/69] fix: an isolated vertex has no edges

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 44beac2..6de6a76 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -83,7 +83,8 @@ class TriMeshAdjacencies:
             )
         )
         self.faces_edges = sparse.coo_matrix((id_edge, (id_faces, v)), shape=(self.nb_faces, 3)).todense()
-        self.adjacency_vertices = ((self._vertices_faces * self._vertices_faces.T) > 0) - sparse.eye(self.nb_vertices)
+        share_face = (self._vertices_faces * self._vertices_faces.T) > 0
+        self.adjacency_vertices = share_face - sparse.diags([share_face.diagonal().astype(np.float64)], [0])
 
         self.degree_v_f = self._vertices_faces.dot(np.ones((self.nb_faces)))
 
-- 
2.43.0


From 4afa22a70336048e2ff0e822c4d7089d7f109037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 23/69] fix: gradient of a rendered textured mesh

---
 deodr/differentiable_renderer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index fc1602a..ae9b313 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1008,7 +1008,10 @@ class Scene3D:
         assert self.store_backward_current is not None
         camera, self.edgeflags = self.store_backward_current["render"]
         self._render_2d_backward(image_b)
-        self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
+        if self.mesh.uv is not None:
+            self.compute_vertices_luminosity_backward(self.scene_2d.shade_b)
+        else:
+            self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
         self.mesh._vertices_b = camera.project_points_backward(
             self.scene_2d.ij_b, store_backward=self.store_backward_current
         )
-- 
2.43.0


From d893863440d3dda6c7bd189afe0fc485d409eae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 24/69] fix: read OBJ files that have texture coordinates,
 continued lines or relative indices

---
 deodr/obj.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..9e02a77 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,10 +23,10 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.rstrip("\r\n").endswith("\\"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+            line = line.rstrip("\r\n")[:-1] + fid.readline()
+        if line.startswith("v "):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -39,9 +39,8 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
-                if v < 0:
-                    v = node_counter + v
+                v = int(f.split("/")[0])
+                v = node_counter + v if v < 0 else v - 1
                 cleaned_fields.append(v)
             faces.append(np.array(cleaned_fields))
 
-- 
2.43.0


From 50f032b63625ff63cd0dfa4fb17dc7dd437b82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 25/69] fix: MeshLab export of the camera rotations, viewports,
 image files and labels

---
 deodr/meshlab_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index a962218..3749e05 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -56,9 +56,9 @@ def export_meshlab(
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-        vcg_camera.setAttribute("ViewportPx", f"{image.shape[0]} {image.shape[1]}")
-        rotation = np.diag([1, -1, -1, 1]).dot(mtx)
-        rotation[:3, 3] = 0
+        vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
+        rotation = np.eye(4)
+        rotation[:3, :3] = np.diag([1, -1, -1]).dot(camera.extrinsic[:, :3])
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
 
         ml_raster.appendChild(vcg_camera)
@@ -68,8 +68,8 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(image_file, image.astype(np.uint8))
-        ml_mesh.setAttribute("label", image_file)
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
+        ml_raster.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
     xml.appendChild(render_group)
-- 
2.43.0


From 2a36903e495f334fdd65223ba0c48ed10518a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 26/69] fix: compare each frame to its own image in the
 multi-frame fitter

---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..724594c 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -536,11 +536,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From 194416727793a11f5037d67324fcf5d4add0eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 27/69] fix: normalize the rotation of each frame in the
 multi-frame fitter

---
 deodr/mesh_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 724594c..8c7e7de 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -600,7 +600,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         )
         self.speed_quaternion = (1 - self.damping) * (self.speed_quaternion * inertia + (1 - inertia) * step_quaternion)
         self.transform_quaternion = self.transform_quaternion + self.speed_quaternion
-        self.transform_quaternion = self.transform_quaternion / np.linalg.norm(self.transform_quaternion)
+        self.transform_quaternion = normalize(self.transform_quaternion)  # one quaternion per frame
         # update translation
         step_translation = mult_and_clamp(
             -self.transform_translation_b,
-- 
2.43.0


From 66aab8aecdac473687976a321971eefa6583badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 28/69] fix: keep the lights and the color fixed when the
 fitters are asked not to update them

---
 deodr/mesh_fitter.py | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 8c7e7de..d2adb44 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -356,20 +356,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
@@ -611,22 +613,24 @@ class MeshRGBFitterWithPoseMultiFrame:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step_light_ambient = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (
-            self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
-        )
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step_light_ambient = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (
+                self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
+            )
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
-- 
2.43.0


From 19e4d024369434bd931e524795506867d90f0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 29/69] fix: do not overwrite the adjoint given to the depth
 fitter

---
 deodr/mesh_fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index d2adb44..7a5cb26 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -113,6 +113,7 @@ class MeshDepthFitter:
 
     def render_backward(self, depth_b: np.ndarray) -> None:
         self.scene.clear_gradients()
+        depth_b = depth_b.copy()
         depth_b[self.depth_not_clipped < 0] = 0
         depth_b[self.depth_not_clipped > self.max_depth] = 0
         self.scene.render_depth_backward(depth_b)
-- 
2.43.0


From 876315adb923f8d7559ef58a385c21da5dcab42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:54 +0000
Subject: [PATCH 30/69] fix: PyTorch gradient of a scene rendered several
 times, with its own antialiasing width

---
 .../differentiable_renderer_pytorch.py        | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..f8ee669 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -48,11 +48,13 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
+        # the scene is kept as it is now: it can be rendered again before the backward pass
+        ctx.scene_2d = scene.scene_2d
+        ctx.sigma = scene.sigma
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
-        scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        scene.scene_2d.colors = colors.detach().numpy()
+        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -63,17 +65,19 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     @staticmethod
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
-        image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        # the backward pass overwrites the image and its adjoint
+        image = ctx.image.copy()
+        image_b = np.array(grad_outputs[0].numpy(), order="C")
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        differentiable_renderer_cython.renderSceneBCpp(scene_2d, ctx.sigma, image, ctx.z_buffer, image_b)
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
         )
 
-- 
2.43.0


From b68f815299f28649f218b1031ce87f4a361daacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 31/69] fix: PyTorch meshes that are clockwise or have vertices
 without face

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..9e87861 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From 0f3f497b0a7ae567f0b3dc0f12a71793d434fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 32/69] fix: keep the orientation of the faces in the PyTorch
 depth fitter energy

---
 deodr/pytorch/mesh_fitter_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..cc316b3 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -44,7 +44,7 @@ class MeshDepthFitterEnergy(torch.nn.Module):
     ):
         super(MeshDepthFitterEnergy, self).__init__()
         self.mesh = ColoredTriMesh(
-            faces=faces[:, ::-1].copy(),
+            faces=faces.copy(),
             vertices=vertices,
             colors=np.zeros((vertices.shape[0], 0)),
         )  # we do a copy to avoid negative stride not supported by pytorch
-- 
2.43.0


From 0def549218aa2986c27e32e2c335e6ea8df0ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:56 +0000
Subject: [PATCH 33/69] fix: keep the lights and the color fixed when the
 PyTorch fitter is asked not to update them

---
 deodr/pytorch/mesh_fitter_pytorch.py | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index cc316b3..0bc6440 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -502,20 +502,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -light_directional_with_grad.grad.numpy() * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -light_ambient_with_grad.grad.numpy() * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -mesh_color_with_grad.grad.numpy() * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -light_directional_with_grad.grad.numpy() * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -light_ambient_with_grad.grad.numpy() * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -mesh_color_with_grad.grad.numpy() * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image.detach().numpy(), diff_image.detach().numpy()
-- 
2.43.0


From 6881ffd412208e9512301d9c18181afe2f8adcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 34/69] fix: use the learning rate given to the PyTorch
 optimizer fitter

---
 deodr/pytorch/mesh_fitter_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index 0bc6440..d7be7b5 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -135,7 +135,7 @@ class MeshDepthFitterPytorchOptim:
     ):
         self.energy = MeshDepthFitterEnergy(vertices, faces, euler_init, translation_init, cregu)
         params = self.energy.parameters()
-        self.optimizer = torch.optim.LBFGS(params, lr=0.8, max_iter=1)
+        self.optimizer = torch.optim.LBFGS(params, lr=lr, max_iter=1)
         # self.optimizer = torch.optim.SGD(params, lr=0.000005, momentum=0.1,
         # dampening=0.1        )
         # self.optimizer =torch.optim.RMSprop(params, lr=1e-3, alpha=0.99,  eps=1e-8,
-- 
2.43.0


From ab22e0edb7cd05d0c6c10f0cd12dffd645bd5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 35/69] fix: PyTorch rigid energy of vertices that require a
 gradient

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From 1c195dc5d12ac8be4603cc1b981e8dff485b2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:27 +0000
Subject: [PATCH 36/69] fix: never keep the texture of a deleted mesh in the
 moderngl renderer

---
 deodr/opengl/moderngl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index e68fa0c..3b609ad 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -63,7 +63,7 @@ class OffscreenRenderer:
         )
         self.fbo = None
         self.texture = None
-        self.texture_id: int = 0
+        self.texture_np = None
 
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
@@ -117,9 +117,9 @@ class OffscreenRenderer:
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
-        texture_id = id(texture)
-        if self.texture is None or self.texture_id != texture_id:
-            self.texture_id = id(texture)
+        # the array is kept: its id could be given to another array once it is deleted
+        if self.texture is None or self.texture_np is not texture:
+            self.texture_np = texture
             self.texture = self.ctx.texture(
                 (texture.shape[1], texture.shape[0]),
                 texture.shape[2],
-- 
2.43.0


From 5d4c4cb83ed144bde2e57cea7acde1b6a2dd9e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 37/69] fix: pixels beside a horizontal edge when strict_edge
 is false

---
 C++/DifferentiableRenderer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2ec2225..594a2f4 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -728,6 +728,13 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	}
 	y_end[1] = clamp_to_short(floor(y_sorted[2]));
 
+	// a part that has no height is limited by a horizontal edge, which does not bound its rows:
+	// its row belongs to the other part
+	if (y_sorted[0] == y_sorted[1])
+		y_end[0] = y_begin[0] - 1;
+	if (y_sorted[1] == y_sorted[2])
+		y_end[1] = y_begin[1] - 1;
+
 	// set left_edge_id and right_edge_id
 
 	int id;
-- 
2.43.0


From 679adaf4718426f5bcaef2de7d439f87742c5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:09 +0000
Subject: [PATCH 38/69] fix: reject a texture that has a single dimension
 instead of crashing

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index ae9b313..ab20afc 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -109,6 +109,7 @@ def renderScene(
             assert scene.background_color is not None, "You need to provide background_image or background_color"
             assert scene.background_color.shape[0] == nb_colors
 
+        assert scene.texture.ndim >= 2
         if scene.texture.size > 0:
             assert scene.texture.ndim == 3
             assert scene.texture.shape[0] > 0
@@ -223,6 +224,7 @@ def renderSceneB(
         assert scene.colors_b.shape[0] == nb_vertices
         assert scene.colors_b.shape[1] == nb_colors
 
+        assert scene.texture.ndim >= 2
         if scene.texture.size > 0:
             assert scene.texture_b is not None
             assert scene.texture.ndim == 3
-- 
2.43.0


From 1842b83593c9a138e8112317ffbe9cbedaf072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 39/69] fix: keep degenerate faces and isolated vertices from
 making normals and gradients nan

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 8 ++++----
 deodr/tools.py                             | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 9e87861..fc58cdc 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -39,14 +39,14 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         v = triangles[::, 2] - triangles[::, 0]
         n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
         l2 = (n**2).sum(dim=1)
-        norm = l2.sqrt()
-        return n / norm[:, None]
+        norm = torch.where(l2 == 0, torch.ones_like(l2), l2).sqrt()
+        return torch.where(l2[:, None] == 0, torch.zeros_like(n), n / norm[:, None])
 
     def compute_vertex_normals(self, face_normals: torch.Tensor) -> torch.Tensor:
         n = self._vertices_faces_torch.mm(face_normals)
         l2 = (n**2).sum(dim=1)
-        norm = l2.sqrt()
-        return n / norm[:, None]
+        norm = torch.where(l2 == 0, torch.ones_like(l2), l2).sqrt()
+        return torch.where(l2[:, None] == 0, torch.zeros_like(n), n / norm[:, None])
 
     def edge_on_silhouette(self, vertices_2d: torch.Tensor) -> np.ndarray:
         return super().edge_on_silhouette(vertices_2d.detach().numpy())
diff --git a/deodr/tools.py b/deodr/tools.py
index d2728d4..014ac65 100644
--- a/deodr/tools.py
+++ b/deodr/tools.py
@@ -36,13 +36,14 @@ def qrot_backward(q: np.ndarray, v: np.ndarray, vr_b: np.ndarray) -> Tuple[np.nd
 def normalize(x: np.ndarray, axis: int = -1) -> np.ndarray:
     n2 = np.sum(x**2, axis=axis)
     n = np.sqrt(n2)
+    n = np.where(n == 0, 1, n)  # null vectors have no direction and stay null
     return x / np.expand_dims(n, axis)
 
 
 def normalize_backward(x: np.ndarray, xn_b: np.ndarray, axis: int = -1) -> np.ndarray:
     n2 = np.sum(x**2, axis=axis)
     n = np.sqrt(n2)
-    inv_n = 1 / n
+    inv_n = np.where(n == 0, 0, 1 / np.where(n == 0, 1, n))  # no gradient for null vectors
     n_b = -np.sum(xn_b * x, axis=axis) * (inv_n**2)
     return (xn_b + x * np.expand_dims(n_b, axis)) * np.expand_dims(inv_n, axis)
 
-- 
2.43.0


From ea0731c4de1d4c0712b77e08b96215100519713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:35 +0000
Subject: [PATCH 40/69] fix: start counting the iterations again when the
 multi-frame fitter is reset

---
 deodr/mesh_fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 7a5cb26..0451d33 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -436,6 +436,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
-- 
2.43.0


From b462e9a04e8a987dbd41b2a0bdcdc1937f9fde08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 41/69] fix: read the gray level textures of trimesh meshes

---
 deodr/triangulated_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 6de6a76..4b3081b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -394,6 +394,8 @@ class ColoredTriMesh(TriMesh):
             # Configure UV coordinates
             if mesh.visual.uv is not None:
                 texture = np.array(mesh.visual.material.image) / 255
+                if texture.ndim == 2:
+                    texture = texture[:, :, None]  # gray level image
                 texture.setflags(write=False)
 
                 if texture.shape[2] == 4:
-- 
2.43.0


From 57dde462c5618cbbe348c284eab564ee946944d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 42/69] fix: keep the orientation of clockwise meshes in the
 conversion to trimesh

---
 deodr/triangulated_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 4b3081b..740f835 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -459,6 +459,10 @@ class ColoredTriMesh(TriMesh):
         assert self.uv is not None, "Only mesh with texture supported."
         assert self.texture is not None, "Only mesh with texture supported."
 
+        if self.clockwise:  # the faces of trimesh meshes are counter-clockwise
+            faces = faces[:, ::-1]
+            faces_tex = faces_tex[:, ::-1]
+
         vt = np.column_stack(
             (
                 (self.uv[:, 0] + 0.5) / self.texture.shape[1],
-- 
2.43.0


From 499e47741d4fcb748b89cc5130165feb33ac3926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 43/69] fix: read the OBJ lines that have tabs, leading spaces
 or a comment at the end

---
 deodr/obj.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 9e02a77..4dd96f7 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -26,16 +26,13 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         while line.rstrip("\r\n").endswith("\\"):
             # Remove backslash and concatenate with next line
             line = line.rstrip("\r\n")[:-1] + fid.readline()
-        if line.startswith("v "):
-            coord = line.split()
-            coord.pop(0)
+        fields = line.split("#")[0].split()
+        keyword = fields.pop(0) if fields else ""
+        if keyword == "v":
             node_counter += 1
-            vertices.append(np.array([float(c) for c in coord]))
-
-        elif line.startswith("f "):
-            fields = line.split()
-            fields.pop(0)
+            vertices.append(np.array([float(c) for c in fields]))
 
+        elif keyword == "f":
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-- 
2.43.0


From 35fdfd8c27220b21c049be87e5c6cbab2784cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 44/69] fix: texture coordinates handed over to pyrender are
 divided by the width and height they belong to

---
 deodr/opengl/pyrender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index b9a1cef..d23f2e4 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -71,8 +71,8 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     uv = deodr_mesh.uv[mask_vt]
     pyrender_uv = np.column_stack(
         (
-            (uv[:, 0]) / deodr_mesh.texture.shape[0],
-            (1 - uv[:, 1] / deodr_mesh.texture.shape[1]),
+            (uv[:, 0] + 0.5) / deodr_mesh.texture.shape[1],
+            1 - (uv[:, 1] + 0.5) / deodr_mesh.texture.shape[0],
         )
     )
 
-- 
2.43.0


From ed47272c7a1dec40dad50eebb98d134d5a9fa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 45/69] fix: a directional light along +z was reversed when
 handed over to pyrender

---
 deodr/opengl/pyrender.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index d23f2e4..e96a9e5 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -34,6 +34,11 @@ def min_rotation(vec1: np.ndarray, vec2: np.ndarray) -> np.ndarray:
     c = np.dot(a, b)
     s = np.linalg.norm(v)
     kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
+    if s <= 1e-6 and c < 0:
+        # opposite vectors: half a turn around any axis that is perpendicular to them
+        axis = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+        axis /= np.linalg.norm(axis)
+        return 2 * np.outer(axis, axis) - np.eye(3)
     d = (1 - c) / (s**2) if s > 1e-6 else 0.5
     return np.eye(3) + kmat + kmat.dot(kmat) * d
 
-- 
2.43.0


From 04170a7f1dafd79e8cecb700cb3b61503b37c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 46/69] fix: hand clockwise faces over to pyrender the way it
 draws them

---
 deodr/opengl/pyrender.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index e96a9e5..119fcf2 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -70,6 +70,9 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     # that are different from face indices for the 3d vertices
     # we need to duplicate vertices
     faces, mask_v, mask_vt = trimesh.visual.texture.unmerge_faces(deodr_mesh.faces, deodr_mesh.faces_uv)
+    if deodr_mesh.clockwise:
+        # pyrender draws the faces that turn counterclockwise
+        faces = faces[:, ::-1]
     vertices = deodr_mesh.vertices[mask_v]
     deodr_mesh.compute_vertex_normals()
     vertex_normals = deodr_mesh.vertex_normals[mask_v]
-- 
2.43.0


From 56493319ddaf37f411e59efc2579dccd994f9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 47/69] fix: take the pixel center convention into account when
 rendering with pyrender

---
 deodr/opengl/pyrender.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 119fcf2..70f412e 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -132,11 +132,13 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
 
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
+    # the centers of the pixels have half integer coordinates in OpenGL
+    offset = 0.5 if deodr_scene.integer_pixel_centers else 0.0
     cam = pyrender.IntrinsicsCamera(
         fx=camera.intrinsic[0, 0],
         fy=camera.intrinsic[1, 1],
-        cx=camera.intrinsic[0, 2],
-        cy=camera.intrinsic[1, 2],
+        cx=camera.intrinsic[0, 2] + offset,
+        cy=camera.intrinsic[1, 2] + offset,
     )
 
     # convert to pyrender directional light parameterization
-- 
2.43.0


From 26436b70e8c857ed33b110caf2333e36dcb762a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 48/69] fix: meshes further than 100 units or nearer than 0.05
 were not drawn by pyrender

---
 deodr/opengl/pyrender.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 70f412e..fd4cb99 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -140,6 +140,10 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
         cx=camera.intrinsic[0, 2] + offset,
         cy=camera.intrinsic[1, 2] + offset,
     )
+    zfar = 1.01 * camera.world_to_camera(deodr_scene.mesh.vertices)[:, 2].max()
+    if zfar > 0:
+        cam.znear = 1e-3 * zfar
+        cam.zfar = zfar
 
     # convert to pyrender directional light parameterization
     assert deodr_scene.light_directional is not None
-- 
2.43.0


From efd8b636bc06109a601d6e142a3d32f233c6603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 49/69] fix: moderngl did not draw what lies on the far plane,
 like a mesh that faces the camera

---
 deodr/opengl/moderngl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 3b609ad..fd547da 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -160,7 +160,8 @@ class OffscreenRenderer:
 
     def render(self, camera: Camera) -> np.ndarray:
         ctx = self.ctx
-        self.zfar = camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
+        # a bit further than the box, what is on the far plane is not always drawn
+        self.zfar = 1.01 * camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
         self.znear = 1e-3 * self.zfar
         # Setting up camera
         self.set_camera(camera)
-- 
2.43.0


From b37674976c8138fbe26185d5be17efd2af739331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 50/69] fix: extend the borders of textures with moderngl
 instead of wrapping them

---
 deodr/opengl/moderngl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index fd547da..3dc4f40 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -125,6 +125,9 @@ class OffscreenRenderer:
                 texture.shape[2],
                 (texture * 255).astype(np.uint8).tobytes(),
             )
+            # the borders are extended, as deodr does
+            self.texture.repeat_x = False
+            self.texture.repeat_y = False
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
-- 
2.43.0


From b5f08b36af47b3bb129fe76913bafd6a5b91c260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 51/69] fix: export both focal lengths of a camera to MeshLab

---
 deodr/meshlab_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index 3749e05..b62b825 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -51,8 +51,9 @@ def export_meshlab(
         )
 
         vcg_camera.setAttribute("CenterPx", " ".join([str(v) for v in camera.intrinsic[0:2, 2]]))
-        vcg_camera.setAttribute("PixelSizeMm", "1 1")
-        vcg_camera.setAttribute("FocalMm", str(camera.intrinsic[0, 0]))
+        fx, fy = float(camera.intrinsic[0, 0]), float(camera.intrinsic[1, 1])
+        vcg_camera.setAttribute("PixelSizeMm", f"1 {fx / fy}")
+        vcg_camera.setAttribute("FocalMm", str(fx))
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-- 
2.43.0


From 8d249bc4941963135294fd0f4d9729bd1801c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 52/69] fix: images of floating point values were black in
 MeshLab projects

---
 deodr/meshlab_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index b62b825..fb71b0a 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -69,7 +69,10 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
+        if image.dtype != np.uint8:
+            # images of floating point values between 0 and 1
+            image = np.round(255 * np.clip(image, 0, 1)).astype(np.uint8)
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image)
         ml_raster.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
-- 
2.43.0


From f5c558faecf5f8febf129e128d203d66f75155b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 53/69] fix: PyTorch face normals of meshes with exactly three
 faces

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index fc58cdc..36d9f62 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = torch.where(l2 == 0, torch.ones_like(l2), l2).sqrt()
         return torch.where(l2[:, None] == 0, torch.zeros_like(n), n / norm[:, None])
-- 
2.43.0


From eab2b81d95b3dfd05a9dd69f26d6ce83ad09857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 54/69] fix: return_z_buffer gave the depths of the vertices in
 Scene3DPytorch

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index f8ee669..1adb3d9 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -60,6 +60,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         # making a copy to keep the antializaed image for visualization ,
         # could be optional
         ctx.z_buffer = z_buffer
+        scene.z_buffer = torch.as_tensor(z_buffer)
         return torch.as_tensor(image)
 
     @staticmethod
@@ -107,7 +108,5 @@ class Scene3DPytorch(Scene3D):
 
     def _render_2d(self) -> Tuple[torch.Tensor, torch.Tensor]:
         self.depths = self.scene_2d.depths.detach()
-        return (
-            TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self),
-            self.depths,
-        )
+        image = TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self)
+        return image, self.z_buffer
-- 
2.43.0


From d1ef7a5e2eddf0b24b7242a6a5b35ecc4e9401cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 55/69] fix: several PyTorch renderings of the same vertices
 shared a freed graph

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 36d9f62..eff386d 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -78,5 +78,10 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
     def compute_adjacencies(self) -> None:
         self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
+    def compute_vertex_normals(self) -> None:
+        # the graph of face normals computed before may have been freed by a backward pass
+        self.compute_face_normals()
+        super().compute_vertex_normals()
+
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From c14113eca1f96762c91d0d09c084f2f0db51e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:55 +0000
Subject: [PATCH 56/69] fix: several moderngl renderers drew into each other's
 OpenGL context

---
 deodr/opengl/moderngl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 3dc4f40..5f80dc5 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -65,6 +65,10 @@ class OffscreenRenderer:
         self.texture = None
         self.texture_np = None
 
+    def make_current(self) -> None:
+        """Make the OpenGL context of this renderer the current one, there can be several renderers."""
+        self.ctx.__enter__()
+
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
         assert deodr_scene.light_ambient is not None
@@ -76,11 +80,13 @@ class OffscreenRenderer:
         self.integer_pixel_centers = deodr_scene.integer_pixel_centers
 
     def set_light(self, light_directional: np.ndarray, light_ambient: float) -> None:
+        self.make_current()
         assert light_directional.shape == (3,)
         self.shader_program["light_directional"].value = tuple(light_directional)  # type :ignore
         self.shader_program["light_ambient"].value = light_ambient
 
     def set_mesh(self, mesh: ColoredTriMesh) -> None:
+        self.make_current()
         assert mesh.uv is not None
         assert mesh.texture is not None
         self.set_texture(mesh.texture)
@@ -114,6 +120,7 @@ class OffscreenRenderer:
         )
 
     def set_texture(self, texture: np.ndarray) -> None:
+        self.make_current()
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
@@ -131,6 +138,7 @@ class OffscreenRenderer:
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
+        self.make_current()
         extrinsic = np.vstack((camera.extrinsic, [0, 0, 0, 1]))
 
         intrinsic = Matrix44(
@@ -162,6 +170,7 @@ class OffscreenRenderer:
         self.shader_program["p2"].value = p2
 
     def render(self, camera: Camera) -> np.ndarray:
+        self.make_current()
         ctx = self.ctx
         # a bit further than the box, what is on the far plane is not always drawn
         self.zfar = 1.01 * camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
-- 
2.43.0


From 18ef158a0571c46ad18d3957a589801840afae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 57/69] fix: render images of more than 32767 pixels in a
 direction

---
 C++/DifferentiableRenderer.h | 109 ++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 594a2f4..60bb090 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -40,6 +40,9 @@
 
 using namespace std;
 
+// largest absolute value of a pixel coordinate, with room left for additions
+#define MAX_PIXEL (1 << 30)
+
 #define SWAP(_a_, _b_, _c_) \
 	{                       \
 		_c_ = _a_;          \
@@ -437,16 +440,16 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
-short int floor_div(double a, double b, int x_min, int x_max)
+int floor_div(double a, double b, int x_min, int x_max)
 {
 
 	// robust implementation of min ( x_max, max (x_min, floor(a / b)))
 
-	short int x;
+	int x;
 
-	if (abs(b) * SHRT_MAX > abs(a) + abs(b))
+	if (abs(b) * MAX_PIXEL > abs(a) + abs(b))
 	{
-		x = (short int)floor(a / b);
+		x = (int)floor(a / b);
 		if (x < x_min)
 		{
 			x = x_min;
@@ -478,15 +481,15 @@ short int floor_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
-short int ceil_div(double a, double b, int x_min, int x_max)
+int ceil_div(double a, double b, int x_min, int x_max)
 {
 	// robust implementation of min ( x_max, max (x_min, ceil(a / b)))
 
-	short int x;
+	int x;
 
-	if (abs(b) * SHRT_MAX > abs(a) + abs(b))
+	if (abs(b) * MAX_PIXEL > abs(a) + abs(b))
 	{
-		x = (short int)ceil(a / b);
+		x = (int)ceil(a / b);
 		if (x < x_min)
 		{
 			x = x_min;
@@ -638,13 +641,13 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 	}
 }
 
-inline int clamp_to_short(double x)
+inline int clamp_to_int(double x)
 {
-	// pixel coordinates are stored in short int, vertices can be further away
-	if (x > SHRT_MAX - 1)
-		return SHRT_MAX - 1;
-	if (x < SHRT_MIN + 1)
-		return SHRT_MIN + 1;
+	// pixel coordinates are stored in int, vertices can be further away
+	if (x > MAX_PIXEL)
+		return MAX_PIXEL;
+	if (x < -MAX_PIXEL)
+		return -MAX_PIXEL;
 	return (int)x;
 }
 
@@ -694,39 +697,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = clamp_to_short(floor(x_sorted[0]));
+		x_min = clamp_to_int(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = clamp_to_short(ceil(x_sorted[0]));
+		x_min = clamp_to_int(ceil(x_sorted[0]));
 	}
 
-	x_max = clamp_to_short(floor(x_sorted[2]));
+	x_max = clamp_to_int(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = clamp_to_short(floor(y_sorted[0])) + 1;
+		y_begin[0] = clamp_to_int(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = clamp_to_short(ceil(y_sorted[0]));
+		y_begin[0] = clamp_to_int(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = clamp_to_short(floor(y_sorted[1]));
+	y_end[0] = clamp_to_int(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = clamp_to_short(floor(y_sorted[1])) + 1;
+		y_begin[1] = clamp_to_int(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = clamp_to_short(ceil(y_sorted[1]));
+		y_begin[1] = clamp_to_int(ceil(y_sorted[1]));
 	}
-	y_end[1] = clamp_to_short(floor(y_sorted[2]));
+	y_end[1] = clamp_to_int(floor(y_sorted[2]));
 
 	// a part that has no height is limited by a horizontal edge, which does not bound its rows:
 	// its row belongs to the other part
@@ -886,11 +889,11 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	delete[] xy1_to_A_B;
 }
 
-inline void get_xrange(int width, const double *left_eq, const double *right_eq, short int y, bool strict_edge, short int x_min, short int x_max, short int &x_begin, short int &x_end)
+inline void get_xrange(int width, const double *left_eq, const double *right_eq, int y, bool strict_edge, int x_min, int x_max, int &x_begin, int &x_end)
 {
 	// compute beginning and ending of the rasterized line
 
-	short int temp_x;
+	int temp_x;
 
 	double numerator;
 
@@ -935,7 +938,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 	double t[3];
 	double *A0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	A0y = new double[sizeA];
 
@@ -947,7 +950,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 	{
 		y_end = height - 1;
 	}
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -966,7 +969,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 
 		int indx = y * width + x_begin;
 		if (perspective_correct)
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				Z = 1 / (inv_Z);
@@ -980,7 +983,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 			}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				Z = Z0y + xy1_to_Z[0] * x;
 				if (Z < z_buffer[indx])
@@ -1002,7 +1005,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 	//double *A0y;
 	double *A0y_B;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 
 	if (perspective_correct)
@@ -1022,7 +1025,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -1043,7 +1046,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
@@ -1186,7 +1189,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 	double t[3];
 	double L0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	double *A;
 	double UV0y[2];
@@ -1202,7 +1205,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 
 		// Line rasterization setup for interpolated values
@@ -1230,7 +1233,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		int indx = y * width + x_begin;
 		if (perspective_correct)
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				Z = 1 / inv_Z;
@@ -1255,7 +1258,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 
 				Z = Z0y + xy1_to_Z[0] * x;
@@ -1287,7 +1290,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 	double t[3];
 	double L0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	double *A;
 	double *A_B;
@@ -1311,7 +1314,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 
 		// Line rasterization setup for interpolated values
@@ -1339,7 +1342,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 		// line rasterization
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
@@ -1466,7 +1469,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = clamp_to_short(floor(Vxy[k][1] - sigma)) + 1;
+			y_begin = clamp_to_int(floor(Vxy[k][1] - sigma)) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1477,7 +1480,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = clamp_to_short(floor(Vxy[k][1] + sigma));
+			y_end = clamp_to_int(floor(Vxy[k][1] + sigma));
 	}
 	if (y_end > height - 1)
 	{
@@ -1611,7 +1614,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 			}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 		double t[3];
 		double T0y, Z0y;
@@ -1632,7 +1635,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		int indx = y * width + x_begin;
 		if (perspective_correct)
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				double Z = 1 / inv_Z;
@@ -1652,7 +1655,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double Z = Z0y + xy1_to_Z[0] * x;
 				if (Z < z_buffer[indx])
@@ -1718,7 +1721,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 				xy1_to_A[3 * i + j] += Avertex[k][i] * xy1_to_bary[k * 3 + j];
 		}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 		double t[3];
 		double T0y, Z0y;
@@ -1741,7 +1744,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z = Z0y + xy1_to_Z[0] * x;
 			if (Z < z_buffer[indx])
@@ -1861,7 +1864,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 			}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 
 		double t[3];
@@ -1889,7 +1892,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z;
 			if (perspective_correct)
@@ -1982,7 +1985,7 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 				xy1_to_UV[3 * i + j] += UVvertex[k][i] * xy1_to_bary[k * 3 + j];
 		}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 
 		double t[3];
@@ -2013,7 +2016,7 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z = Z0y + xy1_to_Z[0] * x;
 			if (Z < z_buffer[indx])
@@ -2555,7 +2558,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 		}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -2664,7 +2667,7 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		numerator = -(ineq[3 * k + 1] * y + ineq[3 * k + 2]);
 		if (ineq[3 * k] < 0)
 		{
-			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
 			{
 				x_end = temp_x;
@@ -2680,7 +2683,7 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		}
 		else
 		{
-			short int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x > x_begin)
 			{
 				x_begin = temp_x;
-- 
2.43.0


From 3fef72daab2fbef7c680b45ec43961a9578c2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:47 +0000
Subject: [PATCH 58/69] fix: a mask of weights in render_compare_and_backward
 weighs the loss and its gradient alike

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index ab20afc..84f9c62 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -744,10 +744,10 @@ class Scene2D(Scene2DBase):
             err_buffer_b = copy.copy(mask)
             self.render_error_backward(err_buffer_b, make_copies=make_copies)
         else:
-            diff_image = (image - obs) * mask[:, :, None]
-            err_buffer = (diff_image) ** 2
+            diff_image = image - obs
+            err_buffer = diff_image**2 * mask[:, :, None]
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From 79c4752c079dff089d13a7d04db11f78ad259b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 59/69] fix: sample the border of the texture for coordinates
 that do not fit in an int

---
 C++/DifferentiableRenderer.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 60bb090..dc9b7fe 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -521,6 +521,16 @@ int ceil_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
+inline int clamp_to_int(double x)
+{
+	// pixel and texel coordinates are stored in int, vertices can be further away
+	if (x > MAX_PIXEL)
+		return MAX_PIXEL;
+	if (x < -MAX_PIXEL)
+		return -MAX_PIXEL;
+	return (int)x;
+}
+
 template <class T>
 void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 {
@@ -532,7 +542,7 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = clamp_to_int(floor(p[k]));
 		e[k] = p[k] - fp[k];
 	}
 
@@ -579,7 +589,7 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 
 	for (int k = 0; k < 2; k++)
 	{
-		fp[k] = (int)floor(p[k]);
+		fp[k] = clamp_to_int(floor(p[k]));
 		e[k] = p[k] - fp[k];
 	}
 
@@ -641,16 +651,6 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 	}
 }
 
-inline int clamp_to_int(double x)
-{
-	// pixel coordinates are stored in int, vertices can be further away
-	if (x > MAX_PIXEL)
-		return MAX_PIXEL;
-	if (x < -MAX_PIXEL)
-		return -MAX_PIXEL;
-	return (int)x;
-}
-
 void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], double xy1_to_bary[9], double edge_eq[][3], bool strict_edge, int &x_min, int &x_max, int *y_begin, int *y_end, int *left_edge_id, int *right_edge_id)
 {
 
-- 
2.43.0


From 85502179d72b014dcc474483d2726893f41b1034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 60/69] fix: reject depths, background colors and color
 adjoints that have too many dimensions or values

---
 deodr/differentiable_renderer.py         | 7 +++++--
 deodr/differentiable_renderer_cython.pyx | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 84f9c62..7985b0e 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -74,6 +74,7 @@ def renderScene(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert np.prod(scene.depths.shape) == nb_vertices
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
@@ -107,7 +108,7 @@ def renderScene(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
-            assert scene.background_color.shape[0] == nb_colors
+            assert scene.background_color.shape == (nb_colors,)
 
         assert scene.texture.ndim >= 2
         if scene.texture.size > 0:
@@ -169,6 +170,7 @@ def renderSceneB(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert np.prod(scene.depths.shape) == nb_vertices
         assert scene.faces.dtype == np.uint32
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
@@ -202,7 +204,7 @@ def renderSceneB(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
-            assert scene.background_color.shape[0] == nb_colors
+            assert scene.background_color.shape == (nb_colors,)
 
         assert scene.uv_b is not None
         assert scene.ij_b is not None
@@ -213,6 +215,7 @@ def renderSceneB(
         assert scene.uv_b.ndim == 2
         assert scene.ij_b.ndim == 2
         assert scene.shade_b.ndim == 1
+        assert scene.colors_b.ndim == 2
         assert scene.edgeflags.ndim == 2
         assert scene.textured.ndim == 1
         assert scene.shaded.ndim == 1
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index d6b3d2c..b0542fa 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -72,6 +72,7 @@ def renderSceneCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 
 	if check_valid:	
+		assert(np.prod(scene.depths.shape)  ==  nb_vertices)
 		assert(scene.faces.dtype  ==  np.uint32)
 		assert(np.all(scene.faces < nb_vertices))
 		assert(np.all(scene.faces_uv < nb_vertices_uv))
@@ -102,7 +103,7 @@ def renderSceneCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
-			assert scene.background_color.shape[0] == nb_colors
+			assert scene.background_color.shape == (nb_colors,)
 		
 		if scene.texture.size>0:
 			assert(scene.texture.ndim  ==  3)
@@ -235,6 +236,7 @@ def renderSceneBCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 	
 	if check_valid:
+		assert(np.prod(scene.depths.shape)  ==  nb_vertices)
 		assert(scene.faces.dtype == np.uint32)
 		assert(np.all(scene.faces<nb_vertices))
 		assert(np.all(scene.faces_uv<nb_vertices_uv))
@@ -265,11 +267,12 @@ def renderSceneBCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
-			assert scene.background_color.shape[0] == nb_colors
+			assert scene.background_color.shape == (nb_colors,)
 				
 		assert(scene.uv_b.ndim  ==  2)
 		assert(scene.ij_b.ndim  ==  2)
 		assert(scene.shade_b.ndim  ==  1)
+		assert(scene.colors_b.ndim  ==  2)
 		assert(scene.edgeflags.ndim  ==  2)
 		assert(scene.textured.ndim  ==  1)
 		assert(scene.shaded.ndim  ==  1)	
-- 
2.43.0


From 8973a368dc45ce4a856bd17ee65c731b86822b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 61/69] fix: faces of clockwise meshes were inside out in
 MeshLab projects

---
 deodr/meshlab_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index fb71b0a..262fe69 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -29,7 +29,9 @@ def export_meshlab(
     ml_mesh.setAttribute("filename", obj_name)
     ml_mesh.setAttribute("visible", "1")
     ml_mesh.setAttribute("label", obj_name)
-    save_obj(os.path.join(os.path.dirname(filename), obj_name), mesh.vertices, mesh.faces)
+    # the faces of MeshLab meshes are counter-clockwise
+    faces = mesh.faces[:, ::-1] if mesh.clockwise else mesh.faces
+    save_obj(os.path.join(os.path.dirname(filename), obj_name), mesh.vertices, faces)
 
     mesh_group.appendChild(ml_mesh)
     ml_matrix = root.createElement("MLMatrix")
-- 
2.43.0


From ba2356cb0371b6b5960aa6815dadc8bde9835f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 62/69] fix: export gray level images to MeshLab

---
 deodr/meshlab_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index 262fe69..e9e3cce 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -74,6 +74,8 @@ def export_meshlab(
         if image.dtype != np.uint8:
             # images of floating point values between 0 and 1
             image = np.round(255 * np.clip(image, 0, 1)).astype(np.uint8)
+        if image.ndim == 3 and image.shape[2] == 1:
+            image = image[:, :, 0]  # gray level image
         imwrite(os.path.join(os.path.dirname(filename), image_file), image)
         ml_raster.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
-- 
2.43.0


From 42b1ed176a79b0bff75097bf2760820d2e60c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 63/69] fix: read the textures of trimesh meshes that have a
 palette, two levels or a transparent gray

---
 deodr/triangulated_mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 740f835..025becb 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -393,7 +393,12 @@ class ColoredTriMesh(TriMesh):
         elif mesh.visual.kind == "texture":
             # Configure UV coordinates
             if mesh.visual.uv is not None:
-                texture = np.array(mesh.visual.material.image) / 255
+                image = mesh.visual.material.image
+                if image.mode in ("1", "LA"):
+                    image = image.convert("L")
+                elif image.mode in ("P", "PA"):  # the colors of an image with a palette
+                    image = image.convert("RGB")
+                texture = np.array(image) / 255
                 if texture.ndim == 2:
                     texture = texture[:, :, None]  # gray level image
                 texture.setflags(write=False)
-- 
2.43.0


From 3243ef1413ff99a79c92cab65fb91ea539f8a69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:51 +0000
Subject: [PATCH 64/69] fix: vertices without faces became nan when subdividing
 a mesh

---
 deodr/triangulated_mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 025becb..ccd4eec 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -531,7 +531,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     border = nb_edge_faces != 2
     edge_mid_points[border] = 0.5 * np.sum(mesh.vertices[mesh.adjacencies.edges[border], :], axis=1)
 
-    beta = (3 / 8) * (1 / mesh.adjacencies.degree_v_e)
+    beta = (3 / 8) * (1 / np.maximum(mesh.adjacencies.degree_v_e, 1))
     moved_points = beta[:, None] * (mesh.adjacencies.adjacency_vertices * mesh.vertices) + (5 / 8) * mesh.vertices
     # the vertices of these edges move along the border only
     border_vertices = mesh.adjacencies.edges[border]
@@ -543,6 +543,9 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     moved_points[on_border] = (
         0.75 * mesh.vertices[on_border] + 0.25 * (border_neighbors_sum / np.maximum(border_degree, 1)[:, None])[on_border]
     )
+    # the vertices without faces do not move
+    isolated = mesh.adjacencies.degree_v_e == 0
+    moved_points[isolated] = mesh.vertices[isolated]
     # moved_points = self.vertices
 
     new_vertices = np.vstack((moved_points, edge_mid_points))
-- 
2.43.0


From 4157d7d866b2b212fe842703d1a5c5bf8e349b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 65/69] fix: refuse cameras with skew in the pyrender rendering

---
 deodr/opengl/pyrender.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index fd4cb99..e6a8581 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -130,6 +130,8 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
 
     if camera.distortion is not None:
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
+    if camera.intrinsic[0, 1] != 0:
+        raise (BaseException("cameras with skew are not supported by pyrender"))
 
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
     # the centers of the pixels have half integer coordinates in OpenGL
-- 
2.43.0


From 2006c10d7ddc8806edc58207af476533f0b0f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 66/69] fix: read the vertices of OBJ files that have a weight
 or a color

---
 deodr/obj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 4dd96f7..3a6b3b0 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -30,7 +30,8 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         keyword = fields.pop(0) if fields else ""
         if keyword == "v":
             node_counter += 1
-            vertices.append(np.array([float(c) for c in fields]))
+            # the coordinates may be followed by a weight or a color
+            vertices.append(np.array([float(c) for c in fields[:3]]))
 
         elif keyword == "f":
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
-- 
2.43.0


From 6b806d1d0a3aa8445cb2ae08c640b1ee7041767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 67/69] fix: read the polygons of OBJ files as triangles

---
 deodr/obj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 3a6b3b0..6df9c16 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -40,7 +40,9 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
                 v = int(f.split("/")[0])
                 v = node_counter + v if v < 0 else v - 1
                 cleaned_fields.append(v)
-            faces.append(np.array(cleaned_fields))
+            # polygons are cut into the triangles around their first corner
+            for k in range(1, len(cleaned_fields) - 1):
+                faces.append(np.array([cleaned_fields[0], cleaned_fields[k], cleaned_fields[k + 1]]))
 
     faces_np = np.vstack(faces)
     vertices_np = np.vstack(vertices)
-- 
2.43.0


From bc3057e823b73f4335fbf8d650f34848bc323756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:45 +0000
Subject: [PATCH 68/69] fix: subdivide meshes whose faces are unsigned integers
 of 64 bits

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index ccd4eec..ef3f263 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -577,7 +577,8 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
             mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,
         )
     )
-    new_faces = np.vstack((faces1, faces2, faces3, faces4))
+    # unsigned integers of 64 bits become floats when they are added to signed ones
+    new_faces = np.vstack((faces1, faces2, faces3, faces4)).astype(np.int64)
     if mesh.uv is not None:
         raise BaseException("Textured mesh not supported yet in subdivision.")
     if mesh.vertices_colors is not None:
-- 
2.43.0


From 8e61e57896e94b7c82d70f70737ee34db18ff15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 69/69] fix: write the faces of OBJ files whatever their type
 of integers

---
 deodr/obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 6df9c16..b6ba554 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -54,4 +54,4 @@ def save_obj(filename: str, vertices: np.ndarray, faces: np.ndarray) -> None:
         for vertex in vertices:
             f.write(f"v {vertex[0]:08f} {vertex[1]:08f} {vertex[2]:08f}\n")
         for face in faces:
-            f.write(f"f {face[0] + 1} {face[1] + 1} {face[2] + 1}\n")
+            f.write(f"f {int(face[0]) + 1} {int(face[1]) + 1} {int(face[2]) + 1}\n")
-- 
2.43.0


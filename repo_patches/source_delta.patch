From 1059013fb035be750fce74f762c7ac97e6f5e94a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 05:07:23 +0000
Subject: [PATCH 01/49] fix: Orthographic map points were not on the surface of
 an oblate body

The linear coefficient of the ray/spheroid intersection had the wrong
sign, so every point of an orthographic map of an oblate body with a
non-zero sub-observer latitude got the wrong latitude and longitude.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From 912581a3de0706cb787b9b7620f581c75765fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 02/49] fix: apply lens aberration correction to image
 coordinates

The Galileo correction is defined on image (line, sample) coordinates,
but was given coordinates relative to the optical axis (or to the body
center), so that GEOM_CORRECT distorted images about the wrong point.
---
 lib/marc/ViewingGeometry.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..6a36bef 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -892,12 +892,13 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
 
-    // Convert from object space to image space.
-    this->geometric_correction_->object_to_image(z, x);
-
     x += this->OA_s_;
     z  = this->OA_l_ - z; // Assumes line numbers increase top to
                           // bottom.
+
+    // Convert from object space to image space.
+    this->geometric_correction_->object_to_image(z, x);
+
     return true;
 }
 
@@ -907,14 +908,14 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                   double & lat,
                                   double & lon) const
 {
+    // Convert from image space to object space.
+    this->geometric_correction_->image_to_object(line, sample);
+
     sample -= this->sample_center_;
     line    = this->line_center_ - line; // Negative since line
                                          // numbers increase top to
                                          // bottom (?)
 
-    // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(sample, line);
-
     // ---------------------------------------------
 
     // Convert from observer coordinates to body coordinates
-- 
2.43.0


From b0374515b9d9c5c940f86d99f4cd9557135a5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 03/49] fix: longitude of an image pixel on a retrograde body

pix2latlon() must be the inverse of latlon2pix(), which subtracts the
sub-observer longitude on bodies with retrograde rotation.
---
 lib/marc/ViewingGeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 6a36bef..f3c1ff2 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -945,7 +945,7 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 4a35b3ea46474beb7b8bc7d50ada75a8c1da9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:35 +0000
Subject: [PATCH 04/49] fix: do not map points that are behind the camera

Points behind an off-pointed observer close to the body were mirrored
through the optical axis onto the image.
---
 lib/marc/ViewingGeometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index f3c1ff2..9fe218d 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -888,6 +888,10 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     // if (rotated[1] > this->normal_range_)
     //     return false;  // On other side of image plane / body.
 
+    // A point behind the observer cannot be in the image.
+    if (rotated[1] <= 0)
+        return false;
+
     // Drop the "y" component since it is zero in the image plane.
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
-- 
2.43.0


From 75c86ecbe8846a15b1877812a2bf2c0ba8683a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:05 +0000
Subject: [PATCH 05/49] fix: camera attitude of images with a given
 LAT/LON_AT_CENTER

The twist about the polar axis ignored the optical axis, so the given
longitude was not at the image center, and the choice between two
attitudes of equal residual could turn the image upside down.
---
 lib/marc/ViewingGeometry.cpp | 83 ++++++------------------------------
 1 file changed, 14 insertions(+), 69 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 9fe218d..b5366c2 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -494,7 +494,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
+MaRC::ViewingGeometry::rot_matrices(DVector const & /* range_b */,
                                     DVector const & OA,
                                     DMatrix & observ2body,
                                     DMatrix & body2observ)
@@ -510,79 +510,24 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     // magnitudes since they're both unit vectors (magnitudes of 1).
     double const dotProd = MaRC::dot_product(body_north, UnitOpticalAxis);
 
-    double SubLatMod[2];
+    // Angle between equatorial plane and OA.
+    double const SubLatMod = std::asin(-dotProd);
 
-    /**
-     * @todo Shouldn't this be @c (C::pi_2 @c - @c std::acos(dotProd)) ?
-     */
-    /*
-      Given cos(x):
-          asin(cos(x)) = x + pi/2
-          asin(-cos(x)) = -(x + pi/2)
-          x = pi/2 - asin(-cos(x))
-     */
-    // Try first possibility
-    SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
-                                         // plane and OA.
-
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
-
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
+    // Angle between the plane containing the sub-observation longitude
+    // and the OA.
+    double const Ztwist =
+        std::atan2(UnitOpticalAxis[0], UnitOpticalAxis[1]);
 
     // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
-                * (Geometry::RotXMatrix(SubLatMod[0])
-                   * Geometry::RotYMatrix(-this->position_angle_)));
-
-    observ2body = o2b;
-
-    // OA_O is the optical axis vector in observer coordinates.
-    DVector const OA_O(0,
-                       /**
-                        * @todo Shouldn't this be @c -OA.magnitude() ?
-                        */
-                       OA.magnitude(),
-                       0);
-
-    double diff_magnitude = (OA - o2b * OA_O).magnitude();
-
-    /**
-     * @todo This seems like a hack.  Why do we need to check a second
-     *       value?  There should only be one value with this approach
-     *       since.
-     */
-    // Try second possibility
-    SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
-
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
-
-    // Observer to body transformation
-    o2b =
-        Geometry::RotZMatrix(Ztwist2)
-        * (Geometry::RotXMatrix(SubLatMod[1])
+    observ2body =
+        Geometry::RotZMatrix(Ztwist)
+        * (Geometry::RotXMatrix(SubLatMod)
            * Geometry::RotYMatrix(-this->position_angle_));
 
-#ifndef NDEBUG
-    double Ztwist, SubLatModified;
-#endif  /* !NDEBUG */
-
-    double const diffmag = (OA - o2b * OA_O).magnitude();
-    if (diff_magnitude > diffmag) {
-        diff_magnitude = diffmag;
-        observ2body = o2b;
+    // OA_O is the optical axis vector in observer coordinates.
+    DVector const OA_O(0, OA.magnitude(), 0);
 
-#ifndef NDEBUG
-        SubLatModified = SubLatMod[1];
-        Ztwist = Ztwist2;
-    } else {
-        SubLatModified = SubLatMod[0];
-        Ztwist = Ztwist1;
-#endif  /* !NDEBUG */
-    }
+    double const diff_magnitude = (OA - observ2body * OA_O).magnitude();
 
     double const percent_diff =
         diff_magnitude / OA_O.magnitude() * 100;
@@ -628,7 +573,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                 "SubLatModified = {}\n"
                 "Ztwist = {}\n",
                 position_angle_ / C::degree,
-                SubLatModified / C::degree,
+                SubLatMod / C::degree,
                 Ztwist / C::degree);
 
     // North pole vector in camera (observer) coordinates.
-- 
2.43.0


From d35c7cf06c393207c19738592d1dcadb36deb6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:05 +0000
Subject: [PATCH 06/49] fix: body center of images with a given
 LAT/LON_AT_CENTER

The body center in the image was left unset, so that REMOVE_SKY failed
an assertion for such images.
---
 lib/marc/ViewingGeometry.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b5366c2..557a294 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -349,6 +349,22 @@ MaRC::ViewingGeometry::finalize_setup(std::size_t samples,
         // Set perpendicular distance from observer to image plane in
         // case focal length and scale are not set or used.
         this->normal_range_ = -(this->body2observ_ * this->range_b_)[1];
+
+        // The kilometers per pixel in the image plane containing the
+        // body center follow from the focal length, if given.
+        if (!std::isnan(this->focal_length_pixels_)) {
+            this->km_per_pixel_ =
+                this->normal_range_ / this->focal_length_pixels_;
+        }
+
+        // Body center in the image, which is needed to go from image
+        // to body coordinates.
+        DVector const range_o(this->body2observ_ * this->range_b_);
+
+        this->sample_center_ =
+            this->OA_s_ - range_o[0] / this->km_per_pixel_;
+        this->line_center_ =
+            this->OA_l_ + range_o[2] / this->km_per_pixel_;
     }
 
     if (std::isnan(this->focal_length_pixels_)) {
-- 
2.43.0


From c4cf704821e6132850fb72a33db858a67e7e5336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 07/49] fix: data range and optional entries in the user
 configuration file

DATA_MIN and DATA_MAX in the user configuration file were ignored, a
file without grid intervals was rejected although all entries are
optional, and a file with only one of the grid intervals set the other
to zero, which made the map grid loop forever.
---
 src/parse.yy | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 5255004..b0b53d2 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -539,21 +539,30 @@ map:    map_parse
 ;
 
 user_file_parse:
-        grid_intervals plane_data_range nibbling {
+        user_file_entries {
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
-          pp.lat_interval = lat_interval;
-          pp.lon_interval = lon_interval;
+          if (lat_interval > 0)
+              pp.lat_interval = lat_interval;
 
-          if (!minimum)
+          if (lon_interval > 0)
+              pp.lon_interval = lon_interval;
+
+          if (minimum)
               pp.minimum = minimum;
 
-          if (!maximum)
+          if (maximum)
               pp.maximum = maximum;
         }
 ;
 
+user_file_entries:
+        grid_intervals plane_data_range nibbling
+        | data_range nibbling
+        | nibbles
+;
+
 map_parse:
         map_setup
         | map_setup map_parse
@@ -1023,7 +1032,11 @@ plane_size:
 
 plane_data_range:
         %empty
-        | DATA_MIN ':' expr { minimum = $3; }
+        | data_range
+;
+
+data_range:
+        DATA_MIN ':' expr { minimum = $3; }
         | DATA_MAX ':' expr { maximum = $3; }
         | DATA_MIN ':' expr
           DATA_MAX ':' expr {
@@ -1179,7 +1192,11 @@ image_initialize:
 
 nibbling:
         %empty
-        | nibble
+        | nibbles
+;
+
+nibbles:
+        nibble
         | nibble_samples
         | nibble_lines
         | nibble_samples nibble_lines
-- 
2.43.0


From c2613e1163dbbfbaa14277caf7d3f92b7d908056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 08/49] fix: latitude type of one plane leaked into later
 planes and maps

LATITUDE_TYPE: GRAPHIC of a LATITUDE plane also applied to subsequent
LATITUDE planes and SIMPLE_C projections without a LATITUDE_TYPE.
---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index b0b53d2..d892730 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1394,6 +1394,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset option.
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From 1b525a3ac20c5d40a0d6221b060aac1c3d56e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 09/49] fix: write the last plane of maps with one pixel per
 plane

The first pixel to be written is 1-based, so the last plane of a map
with a single pixel per plane was taken for already written.
---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From c3cdf5bfab38c4a7aaeb4a099b0010097c9fa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 10/49] fix: out-of-bounds read for images with more than two
 dimensions

CFITSIO reads one first pixel coordinate per image dimension.
---
 src/FITS_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..25b3468 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -425,7 +425,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
      *
      * @attention First pixel in CFITSIO is {1, 1} not {0, 0}.
      */
-    LONGLONG fpixel[] = {1, 1};
+    std::vector<LONGLONG> fpixel(naxis, 1);
 
     // For integer typed FITS images with a BLANK value, set the
     // "blank" value in our floating point converted copy of the image
@@ -438,7 +438,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
 
     if (fits_read_pixll(this->fptr_.get(),
                         traits<value_type>::datatype,
-                        fpixel,
+                        fpixel.data(),
                         nelements,
                         &nulval,  // "Blank" value in our image.
                         tmp.data(),
-- 
2.43.0


From 16cc554104cf7978326572056bfd1c1e13264b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 11/49] fix: reject nibble values larger than the image

The unsigned subtraction wrapped around, so that too large right or top
nibble values passed validation and pixels outside of the image buffer
were read.
---
 lib/marc/PhotoImageParameters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..4323cda 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,16 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    if (this->nibble_right_ >= samples
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (this->nibble_top_ >= lines
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From 86792676c20a3b17b87379ff440db3f9db6ca3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:55 +0000
Subject: [PATCH 12/49] fix: invalid data in one mosaic image hid data in the
 following ones

The value left behind by the previously read image was tested for NaN
instead of the value read from this image.
---
 lib/marc/PhotoImage.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..549a3fb 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -134,9 +134,6 @@ MaRC::PhotoImage::read_data(double lat,
      *
      * @todo Verify that this "nibbling" works as described.
      *
-     * Consider NaN data points invalid, i.e. "off the body".
-     * No need to continue beyond this point.
-     *
      * @todo Check for a user-specified "blank" value as
      *       well.
      */
@@ -144,12 +141,12 @@ MaRC::PhotoImage::read_data(double lat,
         || i >= this->right_
         || k <  this->top_
         || k >= this->bottom_
-        || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || (!this->body_mask_.empty() && !this->body_mask_[index]))
         return false;
 
     data = this->image_[index];
 
+    // Consider NaN data points invalid, i.e. "off the body".
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
-- 
2.43.0


From c0963512da20caad47e5f7e3ee0a1b35c73d0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:41 +0000
Subject: [PATCH 13/49] fix: do not round the valid data range to the map data
 type

DATA_MIN and DATA_MAX were converted to the map data type before use, so
that data outside of the given range was mapped (e.g. 0.2 with a DATA_MIN
of 0.5 in an integer map), and the default maximum of a LONGLONG map
overflowed, which made mapping images to such maps fail.
---
 lib/marc/MapFactory.h     | 19 ++++++++++---------
 lib/marc/MapFactory_t.cpp | 23 ++++++++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/lib/marc/MapFactory.h b/lib/marc/MapFactory.h
index df01883..3bca500 100644
--- a/lib/marc/MapFactory.h
+++ b/lib/marc/MapFactory.h
@@ -111,7 +111,7 @@ namespace MaRC
          */
         template <typename T>
         map_type<T> make_map(SourceImage const & image,
-                             extrema<T> const & minmax,
+                             extrema<double> const & minmax,
                              plot_info<T> & info) const;
 
         /**
@@ -171,7 +171,7 @@ namespace MaRC
              * @param[in,out] map    Map image container.
              */
             parameters(SourceImage const & source,
-                       extrema<T> const & minmax,
+                       extrema<double> const & minmax,
                        plot_info<T> & info,
                        map_type<T> & map)
                 : source_(source)
@@ -200,17 +200,18 @@ namespace MaRC
              *
              * Obtain @c extrema<> object with the underlying minimum
              * and maximum both set with suitable values.  In
-             * particular, if @a e.minimum() is not set, the returned
-             * @c extrema<> will contain a minimum set to
-             * @c std::numeric_limits<T>::lowest().  Similarly, the
-             * maximum will be set to @c std::numeric_limits<T>::max()
-             * if @a e.maximum() is not set.
+             * particular, if @a e.minimum() is not set, or is less
+             * than @c std::numeric_limits<T>::lowest(), the returned
+             * @c extrema<> will contain a minimum set to the latter.
+             * Similarly, the maximum will be set to
+             * @c std::numeric_limits<T>::max() if @a e.maximum() is
+             * not set or is larger.
              *
              * @param[in] e User-specified min/max map data values.
              *
              * @return Suitably initialized extrema.
              */
-            MaRC::extrema<T> get_extrema(extrema<T> const & e);
+            MaRC::extrema<double> get_extrema(extrema<double> const & e);
 
         private:
 
@@ -218,7 +219,7 @@ namespace MaRC
             SourceImage const & source_;
 
             /// User-specified allowed min/max map data values.
-            extrema<T> const minmax_;
+            extrema<double> const minmax_;
 
             /// Map plotting information.
             plot_info<T> & info_;
diff --git a/lib/marc/MapFactory_t.cpp b/lib/marc/MapFactory_t.cpp
index f2aa400..0688c5a 100644
--- a/lib/marc/MapFactory_t.cpp
+++ b/lib/marc/MapFactory_t.cpp
@@ -16,20 +16,29 @@
 #include "marc/SourceImage.h"
 #include "marc/plot_info.h"
 
+#include <algorithm>
+#include <cmath>
 #include <type_traits>
 #include <limits>
 #include <stdexcept>
 
 
 template <typename T>
-MaRC::extrema<T>
-MaRC::MapFactory::parameters<T>::get_extrema(extrema<T> const & e)
+MaRC::extrema<double>
+MaRC::MapFactory::parameters<T>::get_extrema(extrema<double> const & e)
 {
-    auto const & minimum = e.minimum();
-    auto const & maximum = e.maximum();
+    double const lowest = std::numeric_limits<T>::lowest();
+    double highest = std::numeric_limits<T>::max();
 
-    extrema<T> ex(minimum ? *minimum : std::numeric_limits<T>::lowest(),
-                  maximum ? *maximum : std::numeric_limits<T>::max());
+    // The maximum of 64 bit integers is rounded up when converted to
+    // double.
+    if (std::numeric_limits<T>::digits
+        > std::numeric_limits<double>::digits)
+        highest = std::nextafter(highest, 0);
+
+    extrema<double> ex;
+    ex.minimum(std::max(e.minimum().value_or(lowest), lowest));
+    ex.maximum(std::min(e.maximum().value_or(highest), highest));
 
     return ex;
 }
@@ -39,7 +48,7 @@ MaRC::MapFactory::parameters<T>::get_extrema(extrema<T> const & e)
 template <typename T>
 MaRC::MapFactory::map_type<T>
 MaRC::MapFactory::make_map(SourceImage const & image,
-                           extrema<T> const & minmax,
+                           extrema<double> const & minmax,
                            plot_info<T> & info) const
 {
     // Set up blank value for the map.
-- 
2.43.0


From 47fbc9b004be83f7e3598a8a9ed0c96f1048a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:04 +0000
Subject: [PATCH 14/49] fix: DATA_MIN and DATA_MAX of scaled planes are
 physical values

The valid data range given by the user was compared with the scaled
values of integer typed virtual image planes.
---
 src/CosPhaseImageFactory.cpp  |  5 ++---
 src/LatitudeImageFactory.cpp  |  5 ++---
 src/LongitudeImageFactory.cpp |  5 ++---
 src/Mu0ImageFactory.cpp       |  5 ++---
 src/MuImageFactory.cpp        |  5 ++---
 src/SourceImageFactory.cpp    | 13 +++++++++++++
 src/SourceImageFactory.h      | 18 ++++++++++++++++++
 7 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/CosPhaseImageFactory.cpp b/src/CosPhaseImageFactory.cpp
index 111e9f4..fad9126 100644
--- a/src/CosPhaseImageFactory.cpp
+++ b/src/CosPhaseImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::CosPhaseImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(cos_phase_low  * scale + offset);
-    this->maximum(cos_phase_high * scale + offset);
+    this->scale_extrema(cos_phase_low, cos_phase_high, scale, offset);
 
     return std::make_unique<MaRC::CosPhaseImage>(this->body_,
                                                  this->sub_observ_lat_,
diff --git a/src/LatitudeImageFactory.cpp b/src/LatitudeImageFactory.cpp
index 191a2f2..eacb4d6 100644
--- a/src/LatitudeImageFactory.cpp
+++ b/src/LatitudeImageFactory.cpp
@@ -72,11 +72,10 @@ MaRC::LatitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(latitude_low  * scale + offset);
-    this->maximum(latitude_high * scale + offset);
+    this->scale_extrema(latitude_low, latitude_high, scale, offset);
 
     return
         std::make_unique<MaRC::LatitudeImage>(this->body_,
diff --git a/src/LongitudeImageFactory.cpp b/src/LongitudeImageFactory.cpp
index ebb9e4a..132c2e0 100644
--- a/src/LongitudeImageFactory.cpp
+++ b/src/LongitudeImageFactory.cpp
@@ -75,11 +75,10 @@ MaRC::LongitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(longitude_low  * scale + offset);
-    this->maximum(longitude_high * scale + offset);
+    this->scale_extrema(longitude_low, longitude_high, scale, offset);
 
     return std::make_unique<MaRC::LongitudeImage>(scale, offset);
 }
diff --git a/src/Mu0ImageFactory.cpp b/src/Mu0ImageFactory.cpp
index bd149d6..1247602 100644
--- a/src/Mu0ImageFactory.cpp
+++ b/src/Mu0ImageFactory.cpp
@@ -65,11 +65,10 @@ MaRC::Mu0ImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(mu0_low  * scale + offset);
-    this->maximum(mu0_high * scale + offset);
+    this->scale_extrema(mu0_low, mu0_high, scale, offset);
 
     return std::make_unique<MaRC::Mu0Image>(this->body_,
                                             this->sub_solar_lat_,
diff --git a/src/MuImageFactory.cpp b/src/MuImageFactory.cpp
index 16d7670..0b05661 100644
--- a/src/MuImageFactory.cpp
+++ b/src/MuImageFactory.cpp
@@ -67,11 +67,10 @@ MaRC::MuImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
+      Scale the minimum and maximum to match the physical data
       scaling.
     */
-    this->minimum(mu_low  * scale + offset);
-    this->maximum(mu_high * scale + offset);
+    this->scale_extrema(mu_low, mu_high, scale, offset);
 
     return std::make_unique<MaRC::MuImage>(this->body_,
                                            this->sub_observ_lat_,
diff --git a/src/SourceImageFactory.cpp b/src/SourceImageFactory.cpp
index 4b7601c..bafe49c 100644
--- a/src/SourceImageFactory.cpp
+++ b/src/SourceImageFactory.cpp
@@ -26,3 +26,16 @@ MaRC::SourceImageFactory::maximum(double datum)
     if (!this->extrema_.maximum())
         this->extrema_.maximum(datum);
 }
+
+void
+MaRC::SourceImageFactory::scale_extrema(double low,
+                                        double high,
+                                        double scale,
+                                        double offset)
+{
+    auto const minimum = this->extrema_.minimum().value_or(low);
+    auto const maximum = this->extrema_.maximum().value_or(high);
+
+    this->extrema_.minimum(minimum * scale + offset);
+    this->extrema_.maximum(maximum * scale + offset);
+}
diff --git a/src/SourceImageFactory.h b/src/SourceImageFactory.h
index 551d5ab..e951d1b 100644
--- a/src/SourceImageFactory.h
+++ b/src/SourceImageFactory.h
@@ -130,6 +130,24 @@ namespace MaRC
          */
         extrema_type const & minmax() const { return this->extrema_; }
 
+    protected:
+
+        /**
+         * @brief Scale the minimum and maximum physical data values.
+         *
+         * Convert the minimum and maximum physical data values to the
+         * corresponding map array values.
+         *
+         * @param[in] low    Minimum to be used if none was set.
+         * @param[in] high   Maximum to be used if none was set.
+         * @param[in] scale  Physical data scale.
+         * @param[in] offset Offset added to scaled physical data.
+         */
+        void scale_extrema(double low,
+                           double high,
+                           double scale,
+                           double offset);
+
     private:
 
         /**
-- 
2.43.0


From 14edecd3f7dc543f5877187cd2edaab2ad61b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:36 +0000
Subject: [PATCH 15/49] fix: DATAMIN and DATAMAX of scaled maps are physical
 values

The minimum and maximum array values were written for maps with a BSCALE
and BZERO card.
---
 src/MapCommand_t.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..e74078c 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -17,6 +17,7 @@
 #include "ProgressConsole.h"
 
 #include <marc/MapFactory.h>
+#include <marc/VirtualImage.h>
 #include <marc/scale_and_offset.h>
 
 #include <marc/details/format.h>
@@ -123,6 +124,11 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
     info.notifier().subscribe(std::make_unique<Progress::Console>());
 
+    // Physical values corresponding to the map array values, i.e. the
+    // values written in the BSCALE and BZERO cards.
+    double scale  = 1;
+    double offset = 0;
+
     // Create and write the map planes.
     for (auto const & i : this->image_factories_) {
         // Create the SourceImage.
@@ -157,6 +163,14 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
                                         num_planes,
                                         image.get());
 
+        // See write_virtual_image_facts().
+        auto const v = dynamic_cast<VirtualImage const *>(image.get());
+
+        if (v && std::is_integral<T>::value && num_planes == 1) {
+            scale  = v->scale();
+            offset = v->offset();
+        }
+
         // Create the map plane.
         auto map =
             this->factory_->template make_map<T>(*image,
@@ -179,8 +193,15 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
           At this point we know the extrema were set.
         */
-        map_image->template datamin<T>(*info.minimum());
-        map_image->template datamax<T>(*info.maximum());
+        if (scale == 1 && offset == 0) {
+            map_image->template datamin<T>(*info.minimum());
+            map_image->template datamax<T>(*info.maximum());
+        } else {
+            map_image->template datamin<double>(
+                *info.minimum() * scale + offset);
+            map_image->template datamax<double>(
+                *info.maximum() * scale + offset);
+        }
     }
 }
 
-- 
2.43.0


From d9cd64d9970db2b314d3bf9df3d79da77fd26b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:24 +0000
Subject: [PATCH 16/49] fix: interpolated data was outside of the range of the
 surrounding pixels

The right edge term of the bilinear interpolation used the pixels of
the bottom edge.
---
 lib/marc/BilinearInterpolation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..948ac5c 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -61,10 +61,14 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         // [0][0]
         tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
 
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
+        ++count;
+    }
 
-        count += 2;
+    if (!std::isnan(data[ot + r]) && !std::isnan(data[ob + r])) {
+        // [1][1]
+        tmp += (data[ot + r] - data[ob + r]) * (z - b) + data[ob + r];
+
+        ++count;
     }
 
     if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-- 
2.43.0


From ff50587f20b9c5b003f7233fd3b12015e707d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:32 +0000
Subject: [PATCH 17/49] fix: latitude grid lines of Orthographic maps of
 retrograde bodies

The lines were not drawn on the visible side of the body unless the
sub-observation longitude was zero.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index c7af384..696d60d 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -486,7 +486,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 if (this->body_->prograde())
                     mm = this->sub_observ_lon_ + C::pi - mm;
                 else
-                    mm -= C::pi - this->sub_observ_lon_;
+                    mm -= C::pi + this->sub_observ_lon_;
 
                 DVector const coord = p.body2obs() * DVector(
                      radius * std::cos(nn) * std::sin(mm),
-- 
2.43.0


From cca8653b33c617c07a5271bbec8b62e01c4cb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:42 +0000
Subject: [PATCH 18/49] fix: data weights of images with sky removal enabled

The scan along a line looked for the body instead of the sky, and the
scans to the left of and above a pixel measured the distance from the
edge of the image instead of from the pixel.
---
 lib/marc/PhotoImage.cpp | 93 ++++++++++++++++-------------------------
 lib/marc/PhotoImage.h   | 33 +++++++--------
 2 files changed, 52 insertions(+), 74 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 549a3fb..b244e53 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -168,57 +168,53 @@ MaRC::PhotoImage::read_data(double lat,
 
 void
 MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+                               std::size_t i,
                                double & weight) const
 {
-    // Scan across samples on given line.
+    // Search for the pixels in the sky that are closest to sample "i"
+    // on the given line, i.e. in the half-open intervals [left, i) and
+    // [i, right).
+    auto const mask =
+        std::cbegin(this->body_mask_) + line * this->samples_;
 
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
+    auto left = i;
+    while (left > this->left_ && *(mask + (left - 1)))
+        --left;
 
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
+    if (left > this->left_)
+        weight = std::min(static_cast<double>(i - (left - 1)), weight);
 
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    auto right = i;
+    while (right < this->right_ && *(mask + right))
+        ++right;
 
+    if (right < this->right_)
+        weight = std::min(static_cast<double>(right - i), weight);
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t line,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Search for the pixels in the sky that are closest to the given
+    // line on sample "i", i.e. in the half-open intervals [top, line)
+    // and [line, bottom).
+    auto const mask = std::cbegin(this->body_mask_) + i;
+
+    auto top = line;
+    while (top > this->top_ && *(mask + (top - 1) * this->samples_))
+        --top;
+
+    if (top > this->top_)
+        weight = std::min(static_cast<double>(line - (top - 1)), weight);
+
+    auto bottom = line;
+    while (bottom < this->bottom_ && *(mask + bottom * this->samples_))
+        ++bottom;
+
+    if (bottom < this->bottom_)
+        weight = std::min(static_cast<double>(bottom - line), weight);
 }
 
 void
@@ -258,21 +254,6 @@ MaRC::PhotoImage::data_weight(std::size_t i,
     if (this->body_mask_.empty())
         return;
 
-    // -----------------------------------------------------
-
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
-
-    // -----------------------------------------------------
-
-    // Line numbers increase from top to bottom.
-
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    this->scan_samples(k, i, weight);
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..d6a9620 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,32 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples across the given line for the sky closest to
+         * the given sample.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     line   Image line across which scan should
+         *                       occur.
+         * @param[in]     sample Sample at which scan should be
+         *                       started.
+         * @param[in,out] weight Data weight.
          */
         void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+                          std::size_t sample,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines across the given sample for the sky closest to
+         * the given line.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     sample Image sample across which scan should
+         *                       occur.
+         * @param[in]     line   Line at which scan should be started.
+         * @param[in,out] weight Data weight.
          */
         void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+                        std::size_t line,
                         double & weight) const;
 
         /**
-- 
2.43.0


From 7a9516d7c7d7c096bba8d8b7d7c26d2c10d30b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:28 +0000
Subject: [PATCH 19/49] fix: longitude grid lines of Simple Cylindrical maps

Lines between zero and the lower longitude were not drawn on maps that
wrap around at a longitude other than zero, and negative sample numbers
were converted to an unsigned type.
---
 lib/marc/SimpleCylindrical.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 2a230d8..ebd4af2 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -181,18 +181,24 @@ MaRC::SimpleCylindrical::plot_grid(std::size_t samples,
      */
     // Draw longitude lines.
     for (double m = 360; m > 0; m -= lon_interval) {
-        // lo_lon_2 is a work-around for lo_lon_ > hi_lon_ problems
-        auto lo_lon_2 = lo_lon;
+        // Find the equivalent longitude in the longitude range of the
+        // map since the lower longitude may be negative, and the upper
+        // one may be greater than 360.
+        auto mm = m;
 
         if (m - lo_lon > 360)
-            lo_lon_2 += 360;
+            mm -= 360;
+        else if (m < lo_lon)
+            mm += 360;
 
-        decltype(samples) i = std::round((m - lo_lon_2) * sr);
+        auto x = std::round((mm - lo_lon) * sr);
 
         if (this->body_->prograde())
-            i = samples - i;
+            x = samples - x;
+
+        if (x >= 0 && x < static_cast<decltype(x)>(samples)) {
+            auto const i = static_cast<std::size_t>(x);
 
-        if (i < samples) {
             for (std::size_t k = 0; k < lines; ++k)
                 grid[k * samples + i] = white;
         }
-- 
2.43.0


From 53c2e86f845df6d256916d01e1bc279f049c5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:42 +0000
Subject: [PATCH 20/49] fix: longitude grid lines of Polar Stereographic maps

The lines were drawn in the wrong direction on maps on which longitudes
increase clockwise, and each line was also drawn on the opposite side
of the pole.
---
 lib/marc/PolarStereographic.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index ed1cd60..cd6ed12 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -289,13 +289,15 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
         }
     }
 
-    // Draw longitude lines.
+    // Draw longitude lines in the same direction as the map.
+    bool const ccw = (this->north_pole_ == this->body_->prograde());
+
     for (double m = 360; m > 0; m -= lon_interval) {
-        double const mm = m * C::degree;  // Convert to radians
+        double const mm = (ccw ? m : -m) * C::degree;  // Radians
 
         for (std::size_t n = 0; n < imax; ++n) {
             double const nn =
-                static_cast<double>(n) / imax * C::degree * 360;
+                (static_cast<double>(n) / imax * 180 - 90) * C::degree;
 
             /**
              * @bug Shouldn't we take into account the maximum
-- 
2.43.0


From 73ddbfde9ef3c4020c1c382becf639d87ef644d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:19 +0000
Subject: [PATCH 21/49] fix: root finding failed in rare cases

A Newton-Raphson step onto an end of the bracket, where the derivative
does not exist, or a division of zero by zero at the root itself made
the search diverge, and the map could not be created.
---
 lib/marc/root_find.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..e03a7ef 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -234,9 +234,10 @@ MaRC::root_find(double y,
     for (int i = 0; i < max_iterations; ++i) {
         double const df = first_derivative(x0, f);
 
-        // Bisect if Newtown-Raphson is out of range or not
-        // decreasing fast enough.
-        if (((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
+        // Bisect if Newtown-Raphson is out of the (open) range or not
+        // decreasing fast enough.  Also bisect if the derivative is
+        // zero or could not be computed.
+        if (!(((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) < 0)
             || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
             dxold = dx;
             dx = (xh - xl) / 2;
-- 
2.43.0


From 8fe26ca27f9db071a28f76a81f358e37dc503ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:49 +0000
Subject: [PATCH 22/49] fix: cosines slightly greater than one because of
 rounding errors

The program was aborted if, for example, a map pixel was located at the
sub-observer point.
---
 lib/marc/CosPhaseImage.cpp | 4 ++++
 lib/marc/Mu0Image.cpp      | 4 ++++
 lib/marc/MuImage.cpp       | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/lib/marc/CosPhaseImage.cpp b/lib/marc/CosPhaseImage.cpp
index 843149f..596e800 100644
--- a/lib/marc/CosPhaseImage.cpp
+++ b/lib/marc/CosPhaseImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -51,6 +52,9 @@ MaRC::CosPhaseImage::read_data_i(double lat,
                                   lon,
                                   this->range_);
 
+    // Keep rounding errors from placing the cosine outside of its range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/Mu0Image.cpp b/lib/marc/Mu0Image.cpp
index a20e060..8049c58 100644
--- a/lib/marc/Mu0Image.cpp
+++ b/lib/marc/Mu0Image.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -42,6 +43,9 @@ MaRC::Mu0Image::read_data_i(double lat, double lon, double & data) const
                             lat,
                             lon);
 
+    // Keep rounding errors from placing the cosine outside of its range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
diff --git a/lib/marc/MuImage.cpp b/lib/marc/MuImage.cpp
index 9d327ad..f2a4da4 100644
--- a/lib/marc/MuImage.cpp
+++ b/lib/marc/MuImage.cpp
@@ -13,6 +13,7 @@
 #include "Constants.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <cassert>
 
 
@@ -45,6 +46,9 @@ MaRC::MuImage::read_data_i(double lat, double lon, double & data) const
                            lon,
                            this->range_);
 
+    // Keep rounding errors from placing the cosine outside of its range.
+    data = std::clamp(data, -1.0, 1.0);
+
     assert(data >= -1 && data <= 1);
 
     return true;
-- 
2.43.0


From 322acef6fe4e6537b8c6f7dbd25ab21d18611631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:10 +0000
Subject: [PATCH 23/49] fix: scaling factors of 64 bit integer planes were
 recorded as zero

Scaling factors in HISTORY cards of multi-plane LONGLONG maps are
smaller than the epsilon below which values were replaced by zero.
---
 src/MapCommand.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..1708af0 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -51,8 +51,9 @@ namespace
             fits_width < double_width ? fits_width : double_width;
 
         // Avoid writing "-0".  It's harmless but rather unsightly.
-        constexpr int epsilons = 1;
-        if (MaRC::almost_zero(value, epsilons))
+        // Do not discard other values close to zero since scaling
+        // factors of 64 bit integer data are very small.
+        if (value == 0)
             value = 0;
 
         // Work around inability to change precision in
-- 
2.43.0


From 61b4bec5c8b01562860befc202daac92e682b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:36 +0000
Subject: [PATCH 24/49] fix: no rotation matrices for a body center close to
 the optical axis

The discriminant of the quadratic equation being solved is zero if the
body center (rotated by the position angle) is on the same image line
as the optical axis.  It was computed from the coefficients, meaning
rounding errors could make it negative, in which case the image was
not mapped at all.
---
 lib/marc/ViewingGeometry.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 557a294..726a86b 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -22,6 +22,7 @@
 # include "vector_formatter.h"
 #endif  // NDEBUG
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -388,15 +389,20 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     r_o = rotated;
     DVector const temp2(rotated);
 
+    // Solve the quadratic equation for the sine of the rotation angle
+    // about the X axis,
+    //
+    //     a * s * s + 2 * y * S * s + S * S - z * z = 0
+    //
+    // where S is the sine of the sub-observation latitude.  Its
+    // discriminant is 4 * z * z * (a - S * S).  Do not compute it from
+    // the coefficients since it would be dominated by rounding errors
+    // if z is (close to) zero.
+    double const S = std::sin(this->sub_observ_lat_);
     double const a = r_o[2] * r_o[2] + r_o[1] * r_o[1];
-    double const b = 2 * r_o[1] * std::sin(this->sub_observ_lat_);
-    double const c =
-        std::sin(this->sub_observ_lat_) * std::sin(this->sub_observ_lat_)
-        - r_o[2] * r_o[2];
+    double const d = a - S * S;
 
-    std::pair<double, double> SubLatModSin;
-
-    if (!MaRC::quadratic_roots(a, b, c, SubLatModSin)) {
+    if (d < 0) {
         /*
           No real roots.
 
@@ -409,8 +415,11 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
         return false;  // Failure
     }
 
+    double const sqrt_term = r_o[2] * std::sqrt(d);
+
     // ------------- TRY THE FIRST ROOT ------------
-    double SubLatMod = std::asin(SubLatModSin.first);
+    double SubLatMod =
+        std::asin(std::clamp((-r_o[1] * S + sqrt_term) / a, -1.0, 1.0));
 
     Geometry::RotX(SubLatMod, r_o, rotated);
     r_o = rotated;
@@ -430,7 +439,8 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     // ----------- TRY THE SECOND ROOT -------------
     r_o = temp2; // Reset to value of vector after first rotation
 
-    SubLatMod = std::asin(SubLatModSin.second);
+    SubLatMod =
+        std::asin(std::clamp((-r_o[1] * S - sqrt_term) / a, -1.0, 1.0));
     Geometry::RotX(SubLatMod, r_o, rotated);
     r_o = rotated;
 
-- 
2.43.0


From 08e39446e8c343b846012babd280754b8d45e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:59 +0000
Subject: [PATCH 25/49] fix: abort if the line of sight is tangent to the body

The two intersections are the same in that case.
---
 lib/marc/OblateSpheroid.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..f125fb1 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -15,7 +15,7 @@
 
 #include <stdexcept>
 #include <cmath>
-#include <cassert>
+#include <algorithm>
 
 
 namespace
@@ -299,13 +299,13 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
     //   //  if (std::abs(k.first) < std::abs(k.second))
     //     k.second = k.first;
 
-    // Use k.second as solution
+    // Use the smaller root as solution.  Both are equal, except for
+    // rounding errors, if the line is tangent to the surface.
+    double const closest = std::min(k.first, k.second);
 
-    assert(k.second < k.first);
-
-    double const x = vec[0] + k.second * dvec[0];
-    double const y = vec[1] + k.second * dvec[1];
-    double const z = vec[2] + k.second * dvec[2];
+    double const x = vec[0] + closest * dvec[0];
+    double const y = vec[1] + closest * dvec[1];
+    double const z = vec[2] + closest * dvec[2];
 
     lat = std::atan(z / std::hypot(x, y));
     lon = std::atan2(x, -y);
-- 
2.43.0


From ebaf5cac0bdd315f77b2039ebebdb41a001c9917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:50 +0000
Subject: [PATCH 26/49] fix: minimum was lost when merging extrema to unset
 extrema

A value is never less than an unset std::optional<>, meaning only the
maximum was merged in that case.
---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..dea8236 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -182,10 +182,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (*e.minimum_ < this->minimum_ || !this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (*e.maximum_ > this->maximum_ || !this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From 566389ffde2275f7a60e86275ea932e0db16844b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:09 +0000
Subject: [PATCH 27/49] fix: invalid data in one mosaic image hid data in the
 preceding one

The data value obtained from the only image containing valid data was
overwritten with the invalid one of a following image.
---
 lib/marc/PhotoImage.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index b244e53..fce7245 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -144,20 +144,23 @@ MaRC::PhotoImage::read_data(double lat,
         || (!this->body_mask_.empty() && !this->body_mask_[index]))
         return false;
 
-    data = this->image_[index];
+    // Do not touch the caller's data if there is no valid data here.
+    double datum = this->image_[index];
 
     // Consider NaN data points invalid, i.e. "off the body".
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
             z,
-            data)
+            datum)
         || !config->photometric_correction()->correct(*this->geometry_,
-                                                      data)
-        || std::isnan(data)) {
+                                                      datum)
+        || std::isnan(datum)) {
         return false;
     }
 
+    data = datum;
+
     // Scan across image for "off-planet/image" pixels and compute
     // data weight.
     if (scan)
-- 
2.43.0


From 53833f731f232d30b75a1d30d134b617cf613d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 28/49] fix: fraction and exponent of integers were silently
 ignored

For example, "SAMPLES: 1e2" resulted in a one sample map.
---
 src/parse.yy | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index d892730..51663be 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -309,6 +309,12 @@ namespace
             return false;
         }
 
+        if (*end != '\0') {
+            // For example, a fraction where an integer is expected.
+            MaRC::error("invalid number ({})", str);
+            return false;
+        }
+
         return true;
     }
 }
-- 
2.43.0


From b10a30e064ea23ab23b52a1ef2dd25fa47f36667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:21 +0000
Subject: [PATCH 29/49] fix: subtraction without blanks and negated powers in
 expressions

A sign was always considered part of the following number, meaning
"3-1" was a syntax error and "-2^2" was 4 instead of -4.
---
 src/lexer.ll |  2 +-
 src/parse.yy | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..5925051 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -115,7 +115,7 @@ void yyset_column(int, yyscan_t);
         "KM"                            { return KM;  }
         "CW"                            { return CW;  }
         "CCW"                           { return CCW; }
-        [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
+        [[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
             // String to number conversion occurs in the parser.
             yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
 
diff --git a/src/parse.yy b/src/parse.yy
index 51663be..6fcd3ab 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -885,6 +885,16 @@ integer: NUM {
             if (!from_string($1, $$))
                 YYERROR;
         }
+        | '+' NUM {
+            auto_free<char> str($2);
+            if (!from_string($2, $$))
+                YYERROR;
+        }
+        | '-' NUM {
+            auto_free<char> str($2);
+            if (!from_string((std::string("-") + $2).c_str(), $$))
+                YYERROR;
+        }
 
 size:   integer { $$ = $1; }
 ;
@@ -2177,6 +2187,7 @@ expr:   NUM {
             }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
+        | '+' expr  %prec NEG   { $$ = $2;                         }
         | expr '^' expr         { $$ = std::pow($1, $3);           }
         | '(' expr ')'          { $$ = $2;                         }
 ;
-- 
2.43.0


From 3d0eb785b3542fd4f64f70348bb23fa30be3785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:24 +0000
Subject: [PATCH 30/49] fix: reject expressions whose value is not a finite
 number

A NaN passed the longitude, position angle, emission angle and range
checks (all of its comparisons are false) and made the program abort or
silently map nothing.
---
 src/parse.yy | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 6fcd3ab..1287f14 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -453,7 +453,7 @@ using auto_free = std::unique_ptr<T, deallocate_with_free>;
 %token <tptr> VAR FNCT
 %token <sval> _STRING
 %type <val> latitude latitude_sub longitude
-%type <val> position_angle range expr
+%type <val> position_angle range expr expression
 %type <ival> integer size
 %type <bval> rotation
 %type <sub_observ_data> sub_observ
@@ -2164,18 +2164,32 @@ longitude:
 
 /* --------------- Multifunction Infix Notation Calculator ----------------- */
 /* All numbers will be handled with double precision here. */
-expr:   NUM {
+expr:   expression {
+            $$ = $1;
+
+            if (!std::isfinite($$)) {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "expression is not a finite number");
+                YYERROR;
+            }
+        }
+;
+
+expression:
+        NUM {
             auto_free<char> str($1);
             if (!from_string($1, $$))
                 YYERROR;
         }
         | VAR                   { $$ = $1->value.var;              }
-        | VAR '=' expr          { $$ = $3; $1->value.var = $3;     }
-        | FNCT '(' expr ')'     { $$ = (*($1->value.fnctptr))($3); }
-        | expr '+' expr         { $$ = $1 + $3;                    }
-        | expr '-' expr         { $$ = $1 - $3;                    }
-        | expr '*' expr         { $$ = $1 * $3;                    }
-        | expr '/' expr         {
+        | VAR '=' expression    { $$ = $3; $1->value.var = $3;     }
+        | FNCT '(' expression ')' { $$ = (*($1->value.fnctptr))($3); }
+        | expression '+' expression { $$ = $1 + $3;                    }
+        | expression '-' expression { $$ = $1 - $3;                    }
+        | expression '*' expression { $$ = $1 * $3;                    }
+        | expression '/' expression {
             if ($3 != 0)
                 $$ = $1 / $3;
             else {
@@ -2186,10 +2200,10 @@ expr:   NUM {
                 YYERROR;
             }
         }
-        | '-' expr  %prec NEG   { $$ = -$2;                        }
-        | '+' expr  %prec NEG   { $$ = $2;                         }
-        | expr '^' expr         { $$ = std::pow($1, $3);           }
-        | '(' expr ')'          { $$ = $2;                         }
+        | '-' expression  %prec NEG { $$ = -$2;                        }
+        | '+' expression  %prec NEG { $$ = $2;                         }
+        | expression '^' expression { $$ = std::pow($1, $3);           }
+        | '(' expression ')'    { $$ = $2;                         }
 ;
 /* ------------------------------------------------------------------------- */
 
-- 
2.43.0


From 3637a73ee52de60ae804a28b33bf59b4750dbf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:49 +0000
Subject: [PATCH 31/49] fix: do not take the line after an empty comment for
 its text

An empty AUTHOR, ORIGIN, COMMENT or XCOMMENT entry swallowed the
following line of the input file.
---
 src/lexer.ll | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexer.ll b/src/lexer.ll
index 5925051..d82bd88 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -78,6 +78,12 @@ void yyset_column(int, yyscan_t);
     return _STRING;
     /* Comments must end with a carriage return */
                         }
+<comment>\n            {
+    BEGIN(INITIAL);
+    yyget_lval(yyscanner)->sval = strdup("");
+    return _STRING;
+    /* Empty comment.  Do not mistake the next line for its text. */
+                        }
 <keyword_token>[:]      { BEGIN(INITIAL); return ':'; }
 <string>{
         [:]             return ':';
-- 
2.43.0


From 98fbb62615f9d43ff2b94ede437224fdf2d4c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:20 +0000
Subject: [PATCH 32/49] fix: validate the range of MU and PHASE planes

Zero, negative and overflowing ranges were accepted for virtual planes,
unlike for photos.
---
 src/parse.yy | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 1287f14..6d2c9f8 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -48,6 +48,7 @@
 #include "MapCommand.h"
 #include "FITS_traits.h"
 
+#include <algorithm>
 #include <stdexcept>
 #include <limits>
 #include <memory>
@@ -394,6 +395,28 @@ MaRC::SubObserv sub_observation_data = { 0, 0 };
 double position_angle_val = 0;   // Position (north) angle
 MaRC::OrthographicCenter ortho_center;
 
+/**
+ * @brief Verify that the observer is neither inside nor too far from
+ *        the body.
+ *
+ * @param[in] range Observer to body center range in kilometers.
+ *
+ * @see MaRC::ViewingGeometry::range()
+ */
+static bool
+valid_range(double range)
+{
+    bool const valid =
+        range > std::min(oblate_spheroid->eq_rad(),
+                         oblate_spheroid->pol_rad())
+        && range < std::sqrt(std::numeric_limits<double>::max());
+
+    if (!valid)
+        MaRC::error("incorrect range entered: {}", range);
+
+    return valid;
+}
+
 /**
  * @struct free_functor
  *
@@ -1466,12 +1489,25 @@ terminator:
         | TERMINATOR ':' NO  { viewing_geometry->use_terminator(false); }
 ;
 
-range:  RANGE ':' expr  { $$ = $3; }
-        | RANGE ':' expr KM  { $$ = $3; }
+range:  RANGE ':' expr  {
+            if (!valid_range($3))
+                YYERROR;
+
+            $$ = $3;
+          }
+        | RANGE ':' expr KM  {
+            if (!valid_range($3))
+                YYERROR;
+
+            $$ = $3;
+          }
         | RANGE ':' expr AU  {
             // Convert astronomical units to kilometers.
             $$ = $3 * C::astronomical_unit
                 / 1000 /* (C::kilo * C::meter) */;
+
+            if (!valid_range($$))
+                YYERROR;
           }
 ;
 
-- 
2.43.0


From a14d490985f3461dbe925bd3c06cef210a2f904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:52 +0000
Subject: [PATCH 33/49] fix: reject radii whose powers overflow or underflow

The resulting NaNs violated assertions on the plotted cosines.
---
 src/parse_scan.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parse_scan.cpp b/src/parse_scan.cpp
index 21b2171..3edec44 100644
--- a/src/parse_scan.cpp
+++ b/src/parse_scan.cpp
@@ -11,6 +11,8 @@
 #include "parse_scan.h"
 #include "MapCommand.h"
 
+#include <cmath>
+#include <limits>
 #include <stdexcept>
 
 #include <marc/details/format.h>
@@ -85,6 +87,21 @@ MaRC::Radii::validate()
     else if (this->pol_rad < 0)
         this->pol_rad = this->eq_rad * (1 - this->flattening);
 
+    // Powers of the radii and of their ratio must be representable.
+    auto const limit =
+        std::sqrt(std::sqrt(std::numeric_limits<double>::max()));
+
+    if (this->eq_rad > limit
+        || this->pol_rad < 1 / limit
+        || this->eq_rad / this->pol_rad > limit) {
+        auto s = fmt::format("Equatorial radius ({}) or polar radius ({}) "
+                             "is too large or too small",
+                             this->eq_rad,
+                             this->pol_rad);
+
+        throw std::invalid_argument(s);
+    }
+
     // MaRC currently only supports oblate spheroids.
     if (this->eq_rad < this->pol_rad) {
         auto s = fmt::format("Equatorial radius ({}) is less than "
-- 
2.43.0


From 3f8b293e7b87190fdba5df51a2b4133380121bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:37 +0000
Subject: [PATCH 34/49] fix: reject maps whose number of pixels overflows

SAMPLES times LINES wrapped around, e.g. to zero pixels, and an
assertion failed when plotting the first one.
---
 src/parse.yy | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse.yy b/src/parse.yy
index 6d2c9f8..0daa4cb 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -894,7 +894,9 @@ samples:
 ;
 
 lines:  LINES ':' size  {
-          if ($3 > 0)
+          // The number of pixels in the map must be representable, too.
+          if ($3 > 0
+              && $3 <= std::numeric_limits<long>::max() / map_samples)
               map_lines = static_cast<long>($3);
           else {
               MaRC::error("incorrect value for LINES entered: {}", $3);
-- 
2.43.0


From 8a97531cde34de9503889bebd335004f7aa40a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:42 +0000
Subject: [PATCH 35/49] fix: quadratic roots of b = c = 0 and of overflowing
 coefficients

The second root was NaN if both b and c are zero, and NaN roots were
reported as real if the discriminant overflowed, e.g. for lines of sight
extremely far from the body, which made the program abort.
---
 lib/marc/Mathematics.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/marc/Mathematics.h b/lib/marc/Mathematics.h
index 55569ad..80d38b8 100644
--- a/lib/marc/Mathematics.h
+++ b/lib/marc/Mathematics.h
@@ -181,8 +181,8 @@ namespace MaRC
     {
         double const discriminant = b * b - 4 * a * c;
 
-        if (discriminant < 0)
-            return false;  // Roots are not real.
+        if (discriminant < 0 || !std::isfinite(discriminant))
+            return false;  // Roots are not real, or out of range.
 
         /**
          * @note We do not use signum() here since @c signum(b) when
@@ -195,7 +195,9 @@ namespace MaRC
             -(b + sgn(b) * std::sqrt(discriminant)) / 2;
 
         roots.first  = q / a;
-        roots.second = c / q;
+
+        // Both roots are zero if q is zero.
+        roots.second = (q != 0 ? c / q : roots.first);
 
         return true;
     }
-- 
2.43.0


From ff693e181b18536e67a119fc88b49db35916bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:44 +0000
Subject: [PATCH 36/49] fix: scale of the grid of Polar Stereographic maps

---
 lib/marc/PolarStereographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index cd6ed12..6f375cf 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -248,7 +248,7 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
-    double const min_dim = std::min(samples - 1, lines - 1);
+    double const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
     static constexpr auto white =
-- 
2.43.0


From fcfd0021b0ee81e5754f398be70a62c3342716f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:52 +0000
Subject: [PATCH 37/49] fix: report errors that occur when writing the map file

---
 src/FITS_file.cpp    | 30 ++++++++++++++++++++++++++++++
 src/FITS_file.h      |  8 ++++++++
 src/MapCommand.cpp   |  6 +++++-
 src/MapCommand_t.cpp |  5 +++--
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 25b3468..54e2bfb 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -16,6 +16,9 @@
 #include <limits>
 #include <type_traits>
 #include <stdexcept>
+#include <cstring>
+
+#include <sys/stat.h>
 
 
 namespace MaRC
@@ -339,6 +342,33 @@ MaRC::FITS::output_file::make_image(int bitpix,
                                                extname);
 }
 
+void
+MaRC::FITS::output_file::flush()
+{
+    int status = 0;
+
+    auto const f = this->fptr_.get();
+
+    // CFITSIO does not report errors that occur when its file driver
+    // flushes the last few kilobytes.  Check the file size, too.
+    char url_type[FLEN_FILENAME] = { '\0' };
+    char filename[FLEN_FILENAME] = { '\0' };
+    LONGLONG end = 0;
+
+    if (fits_flush_file(f, &status) != 0
+        || fits_url_type(f, url_type, &status) != 0
+        || fits_file_name(f, filename, &status) != 0
+        || fits_get_hduaddrll(f, nullptr, nullptr, &end, &status) != 0)
+        throw_on_error(status);
+
+    struct stat st;
+
+    if (std::strcmp(url_type, "file://") == 0
+        && stat(filename, &st) == 0
+        && S_ISREG(st.st_mode)
+        && st.st_size < end)
+        throw_on_error(WRITE_ERROR);
+}
 
 // ----------------------------------------------------------------
 
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..faf7771 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -300,6 +300,14 @@ namespace MaRC
                 size_t planes,
                 char const * extname = nullptr);
 
+            /**
+             * @brief Write all buffered data to the %FITS file.
+             *
+             * @throw std::runtime_error Error writing the %FITS
+             *                           file.
+             */
+            void flush();
+
         };
 
         // -------------------------------------------------------
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index 1708af0..320708a 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -184,6 +184,9 @@ MaRC::MapCommand::execute()
     // Write the map grid if requested.
     this->write_grid(f);
 
+    // Do not report success unless everything was written.
+    f.flush();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
@@ -260,7 +263,8 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
               << " seconds.\n";
 
     if(!grid_image->template write<grid_type>(grid))
-        MaRC::error("Unable to write grid image to map file.");
+        throw std::runtime_error(
+            "Unable to write grid image to map file.");
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index e74078c..1de414e 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -181,8 +181,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-            MaRC::error("Unable to write plane {} to map file.",
-                        plane_count);
+            throw std::runtime_error(
+                fmt::format("Unable to write plane {} to map file.",
+                            plane_count));
 
         ++plane_count;
     }
-- 
2.43.0


From 78cb7467d335228dfcdd04854247324443425c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:12 +0000
Subject: [PATCH 38/49] fix: warn of source images with incorrect checksums

---
 src/FITS_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 54e2bfb..954893d 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -383,7 +383,7 @@ MaRC::FITS::input_file::input_file(char const * filename)
     if (fits_verify_chksum(this->fptr_.get(),
                            &dataok,
                            &hduok,
-                           &status) != 0) {
+                           &status) == 0) {
         if (dataok == -1)  // Incorrect data checksum
             MaRC::warn("Data checksum for FITS file \"{}\" "
                        "is incorrect",
-- 
2.43.0


From f45020c8f558b7266488ee3824cac5f0b04ecc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:07 +0000
Subject: [PATCH 39/49] fix: reject truncated source images that carry
 checksums

---
 src/FITS_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 954893d..1fbe0d3 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -393,6 +393,10 @@ MaRC::FITS::input_file::input_file(char const * filename)
             MaRC::warn("Header checksum for FITS file \"{}\" "
                        "is incorrect",
                        filename);
+    } else {
+        // The checksums could not be computed, e.g. because the file
+        // is truncated.
+        throw_on_error(status);
     }
 }
 
-- 
2.43.0


From a094158eb0910d1d922c78d3297694fd3a5d651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:29 +0000
Subject: [PATCH 40/49] fix: conversion of image coordinates that are not in
 the image

---
 lib/marc/PhotoImage.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index fce7245..8a7c9b4 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -117,7 +117,11 @@ MaRC::PhotoImage::read_data(double lat,
 
     double x = 0, z = 0;
 
-    if (!this->geometry_->latlon2pix(lat, lon, x, z) || x < 0 || z < 0)
+    // Do not convert coordinates that are outside of the image, or that
+    // could not be computed (NaN), to unsigned integers.
+    if (!this->geometry_->latlon2pix(lat, lon, x, z)
+        || !(x >= 0 && x < this->samples_)
+        || !(z >= 0 && z < this->lines_))
         return false;
 
     // x and z are 'pixel coordinates'.  In 'pixel coordinates', the
-- 
2.43.0


From 5a8b8641825818d506552848f12a20a519f6f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:04 +0000
Subject: [PATCH 41/49] fix: scale and offset of data ranges that did not fit
 the map data type

---
 lib/marc/details/scale_and_offset.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/marc/details/scale_and_offset.h b/lib/marc/details/scale_and_offset.h
index fb4eb59..243cfcc 100644
--- a/lib/marc/details/scale_and_offset.h
+++ b/lib/marc/details/scale_and_offset.h
@@ -110,18 +110,25 @@ namespace MaRC
                     return false;
                 }
 
-                int const exponent =
-                    static_cast<int>(std::numeric_limits<T>::digits10)
-                    - static_cast<int>(std::log10(data_range));
+                int exponent = std::numeric_limits<T>::digits10;
+
+                if (data_range > 0)
+                    exponent -= static_cast<int>(
+                        std::floor(std::log10(data_range)));
+
+                // The scaled data range has one more digit than those
+                // that always fit into type T at this point.
+                if (data_range * std::pow(10, exponent) > type_range)
+                    --exponent;
 
                 scale = std::pow(10, exponent);
 
-                if (min * scale < T_lowest)
-                    offset = data_range / 2 * scale;
-                else if (max * scale > T_max)
-                    offset = -data_range / 2 * scale;
-                else
+                if (min * scale >= T_lowest && max * scale <= T_max)
                     offset = 0;
+                else if (std::is_unsigned<T>::value)
+                    offset = -min * scale;
+                else
+                    offset = -(min + max) / 2 * scale;
 
                 return true;
             }
-- 
2.43.0


From 082c2926ada045de5cd6224be7799a1e6248a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:04 +0000
Subject: [PATCH 42/49] fix: magnitude of vectors with one or more than three
 elements

---
 lib/marc/details/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/marc/details/vector.h b/lib/marc/details/vector.h
index 21258a1..ef2e2ba 100644
--- a/lib/marc/details/vector.h
+++ b/lib/marc/details/vector.h
@@ -43,7 +43,7 @@ namespace MaRC
         template <typename T, std::size_t M>
         auto magnitude(T const (&v)[M])
         {
-            double const m = 0;
+            double m = 0;
 
             /**
              * @bug This implementation is subject to overflow or
@@ -102,7 +102,7 @@ namespace MaRC
         template <typename T>
         constexpr auto magnitude(T const (&v)[1])
         {
-            return v[0];
+            return v[0] < 0 ? -v[0] : v[0];
         }
     }  // details
 }  // MaRC
-- 
2.43.0


From 9fcd415215eec8c59b6ce32971850d2ebe82fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:31 +0000
Subject: [PATCH 43/49] fix: lines of sight that only meet the body behind the
 observer

---
 lib/marc/OblateSpheroid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index f125fb1..d1dd7f6 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -303,6 +303,9 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
     // rounding errors, if the line is tangent to the surface.
     double const closest = std::min(k.first, k.second);
 
+    if (closest < 0)
+        return 1;  // Ellipsoid is behind the observer.
+
     double const x = vec[0] + closest * dvec[0];
     double const y = vec[1] + closest * dvec[1];
     double const z = vec[2] + closest * dvec[2];
-- 
2.43.0


From 5f12c2cadf5063673dab6671cc72040275737e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 44/49] fix: root finding of large arguments failed to converge

---
 lib/marc/root_find.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index e03a7ef..304e5f0 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -17,6 +17,7 @@
 // # include "Log.h"
 #endif
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -256,9 +257,10 @@ MaRC::root_find(double y,
             //             i, dx, df, x0, y0, y);
         }
 
-        // Convergence criterion.
+        // Convergence criterion.  Steps less than a few epsilons
+        // cannot be taken when the argument is large.
         constexpr int epsilons = 2;
-        if (MaRC::almost_zero(dx, epsilons))
+        if (MaRC::almost_zero(dx / std::max(1.0, std::abs(x0)), epsilons))
             return x0;
 
         y0 = f(x0);
-- 
2.43.0


From ca1d42236108a26e386f55983c1e8d9011f74921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:54 +0000
Subject: [PATCH 45/49] fix: first derivative used by root finding for large
 negative arguments

---
 lib/marc/root_find.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 304e5f0..ef126b9 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -54,7 +54,7 @@ namespace
         constexpr int epsilons = 2;
         constexpr auto e =
             epsilons * std::numeric_limits<double>::epsilon();
-        auto const h = (x < 1 ? e : e * x);
+        auto const h = e * std::max(1.0, std::abs(x));
 
         // Center divided difference numerical method of computing
         // the first derivative.
-- 
2.43.0


From aca51809fe432c4257a90a286fe3bdb5583509e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:03 +0000
Subject: [PATCH 46/49] fix: scale of data that needs the full range of a
 signed type was less than one

---
 lib/marc/details/scale_and_offset.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/marc/details/scale_and_offset.h b/lib/marc/details/scale_and_offset.h
index 243cfcc..8115cef 100644
--- a/lib/marc/details/scale_and_offset.h
+++ b/lib/marc/details/scale_and_offset.h
@@ -121,6 +121,11 @@ namespace MaRC
                 if (data_range * std::pow(10, exponent) > type_range)
                     --exponent;
 
+                // The range of a signed type may have more digits
+                // than its largest value.
+                if (exponent < 0)
+                    exponent = 0;
+
                 scale = std::pow(10, exponent);
 
                 if (min * scale >= T_lowest && max * scale <= T_max)
-- 
2.43.0


From 572e4eece03e69c3dda0fcb8d88a01ae9c4991b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:29 +0000
Subject: [PATCH 47/49] fix: prime meridian of orthographic grids could be left
 out

The grid longitudes were accumulated up to, and including, 360 degrees.
Rounding errors, as well as intervals that do not divide 360 degrees,
caused the prime meridian not to be drawn.
---
 lib/marc/Orthographic.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index 696d60d..f0beea1 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -522,9 +522,9 @@ MaRC::Orthographic::plot_lon_lines(std::size_t samples,
 {
     auto const & mp = p.parameters();
 
-    for (double m = 0 + p.lon_interval();
-         m <= 360;
-         m += p.lon_interval()) {
+    // Start at the prime meridian instead of ending with it so that
+    // accumulated rounding errors do not cause it to be left out.
+    for (double m = 0; m < 360; m += p.lon_interval()) {
         constexpr double imax = 1000;
 
         auto const mm = m * C::degree;
-- 
2.43.0


From d065225f92355d9d1d1df1ecc517a18601b2ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:17 +0000
Subject: [PATCH 48/49] fix: orthographic grid positions could overflow an
 integer

---
 lib/marc/Orthographic.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f0beea1..fc57e00 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -496,13 +496,11 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 auto const x = coord[0] / mp.km_per_pixel();
                 auto const z = coord[2] / mp.km_per_pixel();
 
-                auto const i = static_cast<ssize_t>(
-                    std::round(mp.sample_center() - x));
-                auto const k = static_cast<ssize_t>(
-                    std::round(mp.line_center() + z));
+                double const i = std::round(mp.sample_center() - x);
+                double const k = std::round(mp.line_center() + z);
 
-                if (i >= 0 && static_cast<std::size_t>(i) < samples
-                    && k >= 0 && static_cast<std::size_t>(k) < lines) {
+                if (i >= 0 && i < static_cast<double>(samples)
+                    && k >= 0 && k < static_cast<double>(lines)) {
                     auto const index =
                         static_cast<std::size_t>(k) * samples +
                         static_cast<std::size_t>(i);
@@ -576,13 +574,11 @@ MaRC::Orthographic::plot_lon_lines(std::size_t samples,
                 auto const x = coord[0] / mp.km_per_pixel();
                 auto const z = coord[2] / mp.km_per_pixel();
 
-                auto const i = static_cast<ssize_t>(
-                    std::round(mp.sample_center() - x));
-                auto const k = static_cast<ssize_t>(
-                    std::round(mp.line_center() + z));
+                double const i = std::round(mp.sample_center() - x);
+                double const k = std::round(mp.line_center() + z);
 
-                if (i >= 0 && static_cast<std::size_t>(i) < samples
-                  && k >= 0 && static_cast<std::size_t>(k) < lines) {
+                if (i >= 0 && i < static_cast<double>(samples)
+                  && k >= 0 && k < static_cast<double>(lines)) {
                     auto const index =
                         static_cast<std::size_t>(k) * samples +
                         static_cast<std::size_t>(i);
-- 
2.43.0


From 3b9a122133c02ff4d68f725aa109681132023873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:45 +0000
Subject: [PATCH 49/49] fix: an empty plane after one with data was not
 reported

The warning that no data was mapped for a plane looked at the data of
all planes mapped so far.
---
 lib/marc/plot_info.h |  3 +++
 src/MapCommand_t.cpp | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/marc/plot_info.h b/lib/marc/plot_info.h
index 90d8cee..589a661 100644
--- a/lib/marc/plot_info.h
+++ b/lib/marc/plot_info.h
@@ -132,6 +132,9 @@ namespace MaRC
          */
         void update_extrema(T datum) { this->extrema_.update(datum); }
 
+        /// Forget the mapped physical data value extrema.
+        void reset_extrema() { this->extrema_.reset(); }
+
         // Was data plotted to the map?
         bool data_mapped() const { return this->extrema_.is_valid(); }
 
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index 1de414e..54b17dd 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -129,6 +129,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
     double scale  = 1;
     double offset = 0;
 
+    // Extrema of the data mapped in all planes.
+    extrema<T> minmax;
+
     // Create and write the map planes.
     for (auto const & i : this->image_factories_) {
         // Create the SourceImage.
@@ -172,12 +175,17 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         }
 
         // Create the map plane.
+        info.reset_extrema();
+
         auto map =
             this->factory_->template make_map<T>(*image,
                                                  i->minmax(),
                                                  info);
 
-        if (!info.data_mapped())
+        if (info.data_mapped()) {
+            minmax.update(*info.minimum());
+            minmax.update(*info.maximum());
+        } else
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
@@ -188,20 +196,20 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         ++plane_count;
     }
 
-    if (info.data_mapped()) {
+    if (minmax.is_valid()) {
         /*
           Write DATAMIN and DATAMAX keywords.
 
           At this point we know the extrema were set.
         */
         if (scale == 1 && offset == 0) {
-            map_image->template datamin<T>(*info.minimum());
-            map_image->template datamax<T>(*info.maximum());
+            map_image->template datamin<T>(*minmax.minimum());
+            map_image->template datamax<T>(*minmax.maximum());
         } else {
             map_image->template datamin<double>(
-                *info.minimum() * scale + offset);
+                *minmax.minimum() * scale + offset);
             map_image->template datamax<double>(
-                *info.maximum() * scale + offset);
+                *minmax.maximum() * scale + offset);
         }
     }
 }
-- 
2.43.0


"""Writes properties.jsonl and MANIFEST.json for the properties that have a harness.   python3 tools/registry.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["cameratransform/%s.py" % f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None), note=note))


I, H, C = "inputs", "histories", "configurations"

prop("C01", "Pose: rigid transform between world and camera frame",
     "A camera's orientation maps world points into the camera frame by a rotation and translation built from its documented angles (elevation, tilt, roll, heading; or yaw, pitch, roll) and its position and elevation, and the inverse mapping undoes it exactly. "
     "Lengths and angles are preserved, the camera's own position maps to the camera origin, and directions ignore the position.",
     [I, C], "every pose, both orientation types, every point and direction, single points and stacks of points of any leading shape",
     "tests check a handful of poses through full projections; a sign, an axis or an order that only shows for combined angles is not reached",
     ["spatial"], [("SpatialOrientation/YawPitchRoll initCameraMatrix, cameraFromSpace, spaceFromCamera", "spatial.py")])
prop("C02", "Pixel, viewing ray and back: every pixel is hit by its own ray",
     "For every projection type, every point on the ray returned for a pixel (at any positive distance) projects back to that pixel, and the ray starts at the camera position. "
     "Requested normalised rays have unit length and the same direction as the unnormalised ones; the ray direction is the documented one for the projection.",
     [I, C], "every pose, projection type, focal length, optical centre, pixel inside the projection's domain, single pixels and stacks",
     "tests sample few pixels and mostly only the pin-hole camera",
     ["projection", "camera"], [("getRay of the three projections", "projection.py"), ("Camera.getRay", "camera.py")])
prop("C03", "Image to space under a constraint inverts space to image",
     "Transforming a pixel into space with exactly one fixed coordinate (X, Y or Z) or a fixed distance returns a point that fulfils the constraint, lies on the pixel's viewing ray and projects back to the pixel. "
     "Where the constraint can only be fulfilled behind the camera, or not at all, the result is NaN for exactly those pixels.",
     [I, C], "every pose, projection, pixel and constraint value (scalar or one per pixel), points in front of and behind the camera",
     "tests use one or two camera poses and Z=0",
     ["camera", "projection", "spatial"], [("Camera.spaceFromImage, imageFromSpace", "camera.py")])
prop("C04", "Projection equations and points behind the camera",
     "Camera-frame points map to pixels by the documented equations of the rectilinear, cylindrical and equirectangular projections. "
     "With hiding of back points a point that the projection cannot see becomes NaN and every visible one keeps its pixel; without hiding all points get the plain equation's value.",
     [I, C], "every camera point with non-zero depth, every intrinsic, every array shape, hiding on or off",
     "tests compare a few points of mostly one projection",
     ["projection", "camera"], [("imageFromCamera of the three projections", "projection.py"), ("Camera.imageFromSpace", "camera.py")])
prop("C05", "Field of view and focal length are two views of the same number",
     "The horizontal and vertical field of view reported by a projection follow from focal length and image size by the documented formula of that projection. "
     "Constructing or re-setting a projection by a view angle gives the focal length whose reported field of view is that angle, and the edges of a centred image are seen under half the angle.",
     [I, C], "every image size, focal length and view angle, each projection type and axis, or both axes",
     "tests check one angle per projection", ["projection"], [("getFieldOfView, focallengthFromFOV, parameter derivation in the constructor", "projection.py")])
prop("C06", "Equivalent ways to define a projection agree; conflicting ones are refused",
     "However the intrinsics are given (focal length in mm with sensor size or sensor width, in px for one or two axes, view angles, image as size, single numbers or array, explicit or default centre), the resulting focal lengths, centre and image size are the ones these values stand for, and equivalent definitions give equal projections. "
     "Definitions that are over-determined raise an error.",
     [I, C], "every documented combination of constructor arguments with any positive values", "tests use a few literal combinations",
     ["projection"], [("CameraProjection.__init__", "projection.py")])
prop("C07", "A changed parameter takes effect everywhere, by any route",
     "After any sequence of parameter changes (attributes of the camera or of its components, the fit-parameter call with or without distributions, defaults, resetting to the default) the camera behaves exactly like a freshly built camera with the same current parameter values. "
     "No transformation, lens correction, field of view or derived quantity keeps using an earlier value.",
     [I, H, C], "histories of parameter changes over every parameter and every public route, interleaved with use of the camera",
     "tests construct a camera once and hardly ever change it after use",
     ["camera", "parameter_set", "projection", "spatial", "lens_distortion"],
     [("ClassWithParameterSet/ParameterSet attribute routing and callbacks", "parameter_set.py"), ("CameraGroup, Camera attribute routing", "camera.py")])
prop("C08", "Saving and loading a camera restores it completely",
     "A camera that is saved to a file and loaded, into a new or an existing camera of any type, behaves like the saved one: projection type, lens type, orientation type, all their parameters, image size and GPS origin. "
     "Saving does not change the camera.",
     [I, H, C], "every projection, lens and orientation type with any parameter values, also after changes, into any other camera",
     "tests save and load two cameras", ["camera", "parameter_set"], [("Camera.save, load, load_camera", "camera.py")])
prop("C09", "Lens distortion formulas and their inverse",
     "The lens models map between distorted and undistorted pixels by their documented radial polynomial around the optical centre, scaled by their documented length. "
     "Removing and applying the distortion are inverse to each other within the monotone range, the direction from the centre is kept, the centre is fixed, zero coefficients are the identity, and a camera applies its lens in both directions of every transformation.",
     [I, C], "every coefficient set inside the monotone range, every intrinsic, every pixel direction and radius in the range",
     "tests check a few coefficients on a coarse grid", ["lens_distortion", "camera"],
     [("BrownLensDistortion, ABCDistortion, NoDistortion", "lens_distortion.py")])
prop("C10", "Formatted GPS coordinates read back as the same position",
     "A latitude and longitude formatted with the default format or a format of degrees, minutes and seconds (with a letter, or with a sign where no letter is asked for) reads back as the same position up to half a unit of the last printed digit (less than a unit if the last number is an integer %d). "
     "No printed minute or second is 60, the letter or the sign (also before zero degrees) names the hemisphere, and formats without or with more than three numbers are refused.",
     [I, C], "every latitude and longitude of either sign, including values that round up to full minutes or degrees, common formats",
     "tests format two coordinates", ["gps"], [("formatGPS, gpsFromString", "gps.py")])
prop("C11", "GPS strings denote degrees, minutes and seconds with a sign",
     "A coordinate string in any of the documented notations is read as degrees + minutes/60 + seconds/3600, negative for S and W or a leading minus sign (also for minus zero degrees). "
     "Pairs, lists, single coordinates and heights give the documented shapes, and text that is no coordinate gives no position.",
     [I, C], "every digit value in each notation, separator and letter variant", "tests parse some literal strings", ["gps"],
     [("gpsFromString, processDegree", "gps.py")])
prop("C12", "Great-circle distance, bearing and movement agree with each other",
     "Distance, bearing and target point of a movement are those of the great circle on a sphere with the documented earth radius, with heights entering the distance as the third side of a right triangle. "
     "Distance is symmetric and zero only for equal points, and moving from one point by a distance and bearing arrives at the point of the sphere in that distance and bearing; a movement at a height is one on the sphere raised by it, and keeps the height.",
     [I], "every pair of positions away from the poles, every distance and bearing, single positions and batches in any combination",
     "tests compare a few literals", ["gps"], [("getDistance, getBearing, moveDistance", "gps.py")])
prop("C13", "GPS and local coordinates of a camera convert into each other",
     "Local coordinates relative to a GPS origin point east and north with great-circle distance and bearing, and height as third coordinate; converting to GPS and back returns the same position. "
     "A camera with a GPS origin transforms image points to GPS and back consistently with its space transformations.",
     [I, C], "every origin, every offset, with and without height, single points and batches", "tests use one origin",
     ["gps", "camera"], [("spaceFromGPS, gpsFromSpace", "gps.py"), ("Camera.gpsFromSpace, spaceFromGPS, gpsFromImage, imageFromGPS, setGPSpos", "camera.py")])
prop("C14", "Rays hit a triangle mesh where, and only where, it is",
     "The intersection of a ray with a triangle is the point of the ray in the triangle's plane if that point lies inside the triangle in front of the ray start, and NaN otherwise. "
     "For a mesh the nearest such point is returned per ray, for any number of rays and triangles, also through a camera's image-to-space transformation. Walls extruded from a line are hit over their whole rectangle and nowhere else, and areas of triangles and quadrilaterals are the geometric ones.",
     [I, C], "every non-degenerate triangle, ray origin and direction, small numbers of rays and triangles in every order",
     "tests shoot a few rays at a flat landscape", ["ray", "camera"], [("ray_intersect_triangle, intersect, areaOfTriangle", "ray.py"), ("Camera.spaceFromImage mesh", "camera.py")])
prop("C15", "Two-line geometry: closest points, intersection, distance",
     "For two lines or rays the intersection point lies on both where they meet, the closest points are joined by the common perpendicular, and the reported distance is the length of that connection. "
     "Distances are symmetric, never negative and do not depend on the length of the direction vectors.",
     [I, C], "every pair of non-parallel lines, single lines and batches, in 2 and 3 dimensions where supported", "tests check a few axis-parallel lines",
     ["ray"], [("intersectionOfTwoLines, distanceOfTwoLines, getClosestPointFromLine, extrudeLine", "ray.py")])
prop("C16", "Two cameras triangulate the point they both see",
     "Projecting a space point into both cameras of a group and triangulating the two pixels returns the point, with zero ray distance. "
     "For any two pixels the triangulated point lies midway on the shortest connection of their rays, and the reported distance is the length of that connection.",
     [I, C], "every pair of camera poses and projections with non-parallel rays, every point in front of both", "tests use one stereo setup",
     ["camera", "ray"], [("CameraGroup.spaceFromImages, discanteBetweenRays, imagesFromSpace", "camera.py")])
prop("C17", "Object height and length from their image points",
     "The height computed from foot and head pixels is the height of the vertical object whose foot is on the ground and whose projections are these pixels, and the length computed from two ground pixels is the distance of the ground points. "
     "Both agree with the generating objects for single objects and batches.",
     [I, C], "every pose, ground distance, height and length of objects in front of the camera", "tests use a few objects of one camera",
     ["camera"], [("Camera.getObjectHeight, getObjectLength", "camera.py")])
prop("C18", "Transformations do not modify their arguments and repeat exactly",
     "No transformation changes the arrays, lists or camera parameters it is given or works with. "
     "Calling it again with the same arguments returns the same result, also after the caller has overwritten the first one, and integers give the result of the same numbers as floats.",
     [I, H, C], "every public transformation, array and list arguments of float and integer type", "no test compares the arguments afterwards",
     ["camera", "projection", "spatial", "lens_distortion", "ray", "gps"], [("copies made at the beginning of the transformations", "projection.py, ray.py, lens_distortion.py")])
prop("C19", "A batch gives exactly the results of its single points",
     "Transforming an array of points of any leading shape gives, at each place, the result of transforming that point alone, and the result has the leading shape of the input with the coordinates last. "
     "Points do not influence each other, including points that are invisible or have no result.",
     [I, C], "every transformation, stacks up to 3 points and grids, all projections and lenses", "tests use one batch per transformation",
     ["camera", "projection", "spatial", "lens_distortion", "gps", "ray"], [("broadcasting over leading dimensions", "all transformation functions")])
prop("C20", "Rotating or scaling the space leaves the image unchanged",
     "After rotating the world around the camera's vertical axis origin or scaling its unit, the camera sees every equally rotated or scaled point at its previous pixel. "
     "Only the orientation parameters change, and repeated rotations and scalings combine.",
     [I, H, C], "every pose, rotation angle, scale factor and point, histories of two operations", "tests do not cover the combination with poses", ["camera"],
     [("Camera.rotateSpace, scaleSpace", "camera.py")])
prop("C21", "Sampling by Metropolis keeps parameters in range and its trace truthful",
     "Every proposal and every recorded sample has all parameters inside their ranges (for every step width, also after adaptation), and a sample carries the log-probability of exactly the recorded parameter values; a rejected proposal repeats the previous sample, and a worse one is accepted only if the random number is below the ratio of the probabilities. "
     "There is one sample per iteration after the burn-in, and afterwards the camera has the values of the most probable recorded sample.",
     [I, H], "every sequence of random draws over a few iterations, every start value, range, step width and log-probability", "the tests run one random seed",
     ["parameter_set", "statistic"], [("metropolis", "statistic.py"), ("ClassWithParameterSet.metropolis", "parameter_set.py")])
prop("C22", "Log-likelihoods are sums of the documented normal terms",
     "The log-probability of a camera with object heights, object lengths, landmarks, horizon points, baselines, point correspondences or custom terms is the sum over all observations of the log density of the documented deviation (the estimated size, the horizon row, the distance to the epipolar line, the distance of the cameras), with the given uncertainty, or with the mean and uncertainty taken from the estimates themselves where none is given. "
     "Adding observations adds exactly their terms, an additional parameter enters with its current value, and clearing removes all terms.",
     [I, H, C], "every observation value, uncertainty, pose and number of observations up to two per kind", "tests only run fits and compare final numbers loosely",
     ["camera", "parameter_set"], [("addObjectHeightInformation, addObjectLengthInformation, addLandmarkInformation, addHorizonInformation, addBaselineInformation, addPointCorrespondenceInformation", "camera.py"), ("getLogProbability", "parameter_set.py")])
prop("C23", "Distributions, samples, means and fits of parameters",
     "A parameter given as (mean, deviation) has the mean as value, each sample sets it to mean plus deviation times its own random draw, setting to the mean restores the mean, and parameters without distribution are never changed; with a trace, sampling takes one of its rows and setting to the mean the most probable one. "
     "A fit starts at the parameters' values (or a random possible start), keeps to their ranges, minimises minus the log-probability and leaves the optimizer's result in effect; always the camera behaves like a new camera with the current values.",
     [I, H, C], "every parameter, value, range, random draw and trace; every order of defining, sampling, resetting and fitting up to four steps", "tests fit one camera once",
     ["parameter_set", "statistic", "camera"], [("ClassWithParameterSet.fit, sample, set_to_mean; ParameterSet.set_fit_parameters", "parameter_set.py"), ("FitParameter", "statistic.py")])
prop("C24", "Top view and undistorted images show the right pixel, never a stale map",
     "Each pixel of a top-view image is taken from the image position of the ground point it stands for, with the extent, scaling and height asked for, and each pixel of an undistorted image from the distorted position of that pixel (with a given extent; an extent guessed by the code is not covered). "
     "A change of the camera, image size, extent or scaling between two calls takes effect.",
     [I, H, C], "every pose, lens, extent and scaling over small images, histories of two calls with a change in between", "tests compare one image",
     ["camera"], [("getTopViewOfImage, _getMap, undistortImage, _getUndistortMap", "camera.py")])
prop("C25", "Ground area covered by pixels",
     "The look-up table gives for every image line (at the middle column), or for every pixel if the whole image is asked for, the area of the quadrilateral that the square of one pixel side around the pixel covers on the ground Z=0. "
     "Where a corner of the square does not see the ground the entry is the given undefined value (default 0).",
     [I, C], "every pose, projection, intrinsics and undefined value over small images", "tests check one value", ["camera", "ray"], [("generateLUT", "camera.py"), ("areaOfQuadrilateral", "ray.py")])
prop("C26", "Image border and viewing cone",
     "The border consists of the image coordinates along the four sides of the image, in order, in steps of the given resolution, starting at the origin and covering each side up to its end. "
     "The rim of the viewing cone consists of the image corners at the given distance from the camera (or, projected to the ground, of the ground points of the border pixels, undefined where they do not see the ground), and its edges go from the camera position to the corners.",
     [I, C], "every image size, resolution, pose, distance and projection", "tests check a shape", ["camera"], [("getImageBorder, getCameraCone", "camera.py")])
prop("C27", "The horizon of the image and its distance",
     "The distance to the horizon follows from the camera's current elevation above a sphere of the earth's radius (between the chord to and the tangent at the touching point; undefined from below the surface). "
     "For every image column asked for (a number, several, or by default left edge, middle and right edge) the horizon point is the image row whose viewing ray at that distance ends nearest to the height Z=0, and undefined if there is no horizon.",
     [I, C], "every pose, projection, intrinsics, elevation and column over small image heights", "tests check one camera", ["camera"], [("distanceToHorizon, getImageHorizon", "camera.py")])
prop("C28", "A camera group is the composition of its cameras",
     "A group's transformations give for each camera the result that camera alone would give, parameters are addressed per camera, and shared components change all cameras that share them and no others. "
     "The group's log-probability is the sum of its own terms and those of its cameras.",
     [I, H, C], "groups of two cameras with shared or own projection, orientation and lens", "tests use one group",
     ["camera", "parameter_set"], [("CameraGroup", "camera.py")])
prop("C29", "Camera intrinsics from a photo's EXIF data",
     "The focal length, sensor size and image size read from a photo are those its EXIF entries stand for: the focal length in mm, the image size in pixels, and the sensor size from the database entry of exactly this camera model or else from the image size and the focal plane resolution per inch. "
     "Rational entries are understood as pair of numerator and denominator as well as as number, and printing the parameters does not change them.",
     [I, C], "every value of the numeric entries, photos of models inside and outside of the database", "tests have no photo with EXIF data", ["camera"],
     [("getCameraParametersFromExif, _getSensorFromDatabase", "camera.py")])


TECH = ("symbolic execution of the real Python code of /repo (real arithmetic, symbolic inputs, path forking at every branch); obligations discharged by "
        "z3 after polynomial/trigonometric normalisation; counterexamples replayed on the unpatched code")


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            q = dict(p)
            q.pop("note")
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps(q, ensure_ascii=False) + "\n")
    checks = []
    for p in have:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="other",
                           level_note="bounded solver-based check over the reals of the real code: holds for every value inside the bounds listed in DESIGN.md and the evidence file; "
                                      "floating-point rounding is outside" + ("; " + p["note"] if p["note"] else "")))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
             hooks=dict(guard="none", enable="no hooks: the checks import /repo's package as it is", source_commits=[]),
             notes="Commits in /repo starting with 'fix:' repair genuine defects, see known_findings.jsonl.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(have), "properties")


if __name__ == "__main__":
    main()

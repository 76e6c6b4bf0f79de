"""Writes DESIGN.md from tools/design.head.md, the harnesses' META (bounds, stubs, assumptions), the texts below, the known findings and the planted bugs.
   /opt/venv/bin/python tools/design.py"""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

SPEC = {
 "C01": ("R(roll)·R(tilt)·R(heading) written out from the documentation (R_doc in harness/common.py), t = (x, y, elevation)",
         "both transforms against the documented matrices (all nine entries times a free point), inverse in both directions, lengths and inner products, camera position to origin, directions without position; headings beyond ±360°"),
 "C02": ("documented ray formulas of the three projections, pose of C01", "origin and direction of getRay, |normed| = 1 and parallel to the plain ray with positive factor, projection of origin + k·ray is the pixel again for every k > 0; all sectors of the panoramic angle"),
 "C03": ("construction: the pixel's ray and the constraint value position + k·ray component, so the exact solution is known as k", "point returned equals the known one for k > 0, NaN for k < 0, in batches for exactly the pixels concerned; D as distance"),
 "C04": ("documented projection equations", "pixel of every camera point in front, beside and behind, with and without hide_backpoints; NaN exactly for z > 0 (pin-hole)"),
 "C05": ("documented formulas of the view angles", "getFieldOfView, focallengthFromFOV, imageFromFOV, construction by view angles, re-setting; rays through the image edges enclose the view angle"),
 "C06": ("the meaning of every way to give the intrinsics, written as a table", "all equivalent constructions give the same parameters; over-determined ones raise ValueError"),
 "C07": ("a freshly built camera with the current values", "after each step of each history all observers agree with the fresh camera; the histories include setting, (mean, std), defaults, None, fit call with several components, and focallength_px"),
 "C08": ("the saved camera", "all parameters, types and transformations of the loaded camera equal those of the saved one, the saved one is unchanged; camera, and projection / orientation / lens on their own"),
 "C09": ("documented polynomials", "distortedFromImage equals the formula, imageFromDistorted is its inverse in both orders within the monotone range, direction kept, centre fixed, zero coefficients identity; camera level: imageFromSpace and getRay use the lens"),
 "C10": ("value of the printed numbers; reading back by gpsFromString", "numbers of the text are the coordinate within half a unit, letter or sign, no 60, read back in four ways; refused formats"),
 "C11": ("degrees + minutes/60 + seconds/3600 with the sign of letter or minus", "every numeral digit symbolic; pairs, singles, tuples, lists, heights, camera.setGPSpos(text); texts that are no coordinate"),
 "C12": ("unit vectors of positions on the sphere (spherical law by vectors)", "distance through the chord, bearing and target as position vectors; symmetry; heights"),
 "C13": ("great circle of C12", "spaceFromGPS/gpsFromSpace against distance and bearing, round trips, cameras: gpsFromImage(X, Y, Z, D), imageFromGPS"),
 "C14": ("barycentric construction of the hit point; nearest of several by construction", "hit or NaN for every region around the triangle, batches, camera with mesh, extruded walls (upwards and downwards) hit over the whole rectangle and not beside it, areas"),
 "C15": ("construction from the two closest points", "intersection, mean point, distance, symmetry and scale independence, parallel lines, batches with parallel members"),
 "C16": ("construction from a common point or from the two closest points", "CameraGroup.imagesFromSpace, spaceFromImages, discanteBetweenRays"),
 "C17": ("construction: foot on the plane, head above it; two ground points", "getObjectHeight and getObjectLength for all Z, single and batch"),
 "C18": ("the same call before and after", "arguments bit-identical, camera parameters unchanged, second call equal also after the first result was overwritten in place, integer inputs equal float inputs"),
 "C19": ("the call with the single point", "entry by entry equality (including NaN) and shape"),
 "C20": ("the rotated / scaled world point", "pixels equal, non-orientation parameters unchanged, combination of operations"),
 "C21": ("the textbook acceptance rule and the recorded draws", "ranges, trace rows, acceptance, number of samples, final camera values; step width adaptation"),
 "C22": ("sum of normal log densities of the documented deviation", "every add…Information call, only_plot, several terms, additional parameters, clear"),
 "C23": ("mean + deviation·draw; the arbitrary optimizer's result", "values after sample, set_to_mean, traces, fit; ranges, start, cost = −log-probability; the camera equals a fresh one at each moment"),
 "C24": ("position of the pixel in space → imageFromSpace of a fresh camera; lens.distortedFromImage", "maps given to remap, per pixel; histories with a change in between"),
 "C25": ("area of the quadrilateral of the four ground points (shoelace)", "each entry of the table"),
 "C26": ("corner and side points written out", "border points and order, cone corners at distance D, cone on the ground, edges from the camera"),
 "C27": ("tangent triangle at the sphere; row with the smallest |Z|", "distance, rows per column, undefined cases"),
 "C28": ("the single cameras", "transformations per camera, addressing, sharing, log-probability"),
 "C29": ("the EXIF standard's meaning of the entries", "focal length, sensor size, image size, model look-up"),
}


def main():
    head = open(os.path.join(ROOT, "tools", "design.head.md")).read()
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = [head, "## Properties: oracle, what is checked, bounds\n",
           "`level` of all: bounded symbolic execution of the real code, discharged by z3 (see above). Cost: 5 s to 3 min on 8 cores per quick check, see `wall_s` in the evidence.\n"]
    for p in props:
        i = p["id"]
        meta = importlib.import_module("harness." + i.lower()).META
        o, w = SPEC[i]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("* oracle: %s" % o)
        out.append("* obligations: %s" % w)
        out.append("* bounds: %s" % meta["bounds"])
        if meta.get("stubs"):
            out.append("* models of library code: %s" % "; ".join(meta["stubs"]))
        if meta.get("assumptions"):
            out.append("* assumptions / left out: %s" % "; ".join(meta["assumptions"]))
        out.append("* tests cannot: %s\n" % p["why_tests_cant"])
    out.append("## Findings in the code\n")
    for l in open(os.path.join(ROOT, "known_findings.jsonl")):
        l = l.strip()
        if l.startswith("fixed:"):
            out.append("* " + l)
        elif l:
            d = json.loads(l)
            out.append("* **known, not repaired** (%s, instance %s): %s" % (d["property"], d["instance"], d["what"]))
    out.append("\n## Planted bugs\n\nEach was written from the property's text and the code; all pass the existing tests. `caught by` lists the checks that report it (quick tier).\n")
    out.append("| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
    caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
    for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()

//! Names that occur in real scene files: directive types, parameter names,
//! file names. A bug may hide behind one of them.
pub const TYPES: &[&str] = &[
    "perspective", "orthographic", "environment", "realistic", "spherical", "halton", "random", "stratified", "sobol", "02sequence", "lowdiscrepancy", "zerotwosequence", "maxmindist", "independent", "zsobol", "paddedsobol",
    "image", "rgb", "gbuffer", "box", "gaussian", "mitchell", "sinc", "triangle", "path", "bdpt", "directlighting", "mlt", "sppm", "whitted", "volpath", "ambientocclusion", "bvh", "kdtree",
    "cone", "curve", "cylinder", "disk", "hyperboloid", "paraboloid", "sphere", "trianglemesh", "plymesh", "heightfield", "loopsubdiv", "nurbs", "bilinearmesh",
    "disney", "fourier", "glass", "hair", "kdsubsurface", "matte", "metal", "mirror", "mix", "none", "plastic", "substrate", "subsurface", "translucent", "uber", "", "diffuse", "coateddiffuse", "conductor", "dielectric", "interface",
    "distant", "goniometric", "infinite", "point", "projection", "spot", "area", "constant", "scale", "bilerp", "imagemap", "checkerboard", "dots", "fbm", "wrinkled", "marble", "windy", "ptex", "spectrum", "float", "color", "default", "true", "false", "World", "camera", "screen", "All", "StartTime", "EndTime",
];
pub const NAMES: &[&str] = &[
    "frameaspectratio", "screenwindow", "lensradius", "focaldistance", "fov", "halffov", "shutteropen", "shutterclose", "lensfile", "aperturediameter", "simpleweighting", "pixelsamples", "jitter", "xsamples", "ysamples", "dimensions", "samplesperpixel", "seed",
    "xresolution", "yresolution", "cropwindow", "scale", "maxsampleluminance", "diagonal", "filename", "pixelbounds", "xwidth", "ywidth", "alpha", "B", "C", "tau", "maxdepth", "rrthreshold", "lightsamplestrategy", "visualizestrategies", "visualizeweights", "strategy", "bootstrapsamples", "chains", "mutationsperpixel", "largestepprobability", "sigma",
    "numiterations", "iterations", "photonsperiteration", "imagewritefrequency", "radius", "maxnodeprims", "splitmethod", "intersectcost", "traversalcost", "emptybonus", "maxprims", "height", "phimax", "zmin", "zmax", "innerradius", "p1", "p2", "P", "N", "S", "T", "uv", "st", "indices", "faceIndices", "degree", "basis", "type", "width", "width0", "width1", "splitdepth", "levels", "nlevels", "nu", "nv", "uorder", "vorder", "uknots", "vknots", "u0", "u1", "v0", "v1", "Pw", "Pz",
    "shadowalpha", "bumpmap", "color", "anisotropic", "clearcoat", "clearcoatgloss", "eta", "metallic", "roughness", "uroughness", "vroughness", "remaproughness", "scatterdistance", "sheen", "sheentint", "spectrans", "specularTint", "speculartint", "thin", "difftrans", "flatness", "bsdffile", "Kr", "Kt", "Kd", "Ks", "index", "sigma_a", "sigma_s", "eumelanin", "pheomelanin", "beta_m", "beta_n", "mfp", "k", "amount", "namedmaterial1", "namedmaterial2", "coefficients", "name", "reflect", "transmit", "opacity", "g",
    "L", "I", "from", "to", "mapname", "nsamples", "samples", "coneangle", "conedeltaangle", "twosided", "power", "illuminance", "portal", "mapping", "uscale", "vscale", "udelta", "vdelta", "value", "tex1", "tex2", "v00", "v01", "v10", "v11", "wrap", "maxanisotropy", "trilinear", "gamma", "encoding", "dimension", "aamode", "inside", "outside", "octaves", "variation", "fbm", "material", "world", "camera", "time", "id", "ty", "class", "pos", "bool", "integer", "float", "string", "texture", "spectrum", "true", "false", "x", "X", "_", "a-b", "a.b", "a:b", "1", "0", "-1", "WorldEnd", "AttributeEnd",
];
pub const PATHS: &[&str] = &[
    "a.pbrt", "a.PBRT", "./a", "../a", "a/../b", "a/./b", "a//b", "a/", "/a", "//a", "/", ".", "..", "~", "~/a", "$HOME/a", "${HOME}", "%HOME%", "a%20b", "a b", " a", "a ", "a\t", "file:///a", "http://x/y", "C:/a", "a.b.c", ".a", "a.", "a*", "a?", "a|b", "a;b", "a,b", "a:b", "<stdin>", "-", "--", "#a", "a#b", "a\u{301}", "\u{e1}", "A", "caf\u{e9}/\u{1d11e}", "a.exr", "a.png", "a.tga", "a.spd", "a.ply", "geometry/mesh_00001.ply", "con", "nul", "null", "none", "",
    "true", "false", "True", "yes", "0", "1", "-1", "1.5", "1e3", "nan", "inf", "NaN", "None", "WorldBegin", "WorldEnd", "AttributeBegin", "Shape", "float a", "integer b", "[", "]", "[1 2]", "(1, 2)", "{}", "{0}", "%s", "%d", "'", "`", "a'b", "&amp;", "<a>", "a=b", "a\u{0}b", "\u{feff}a", "\u{200b}", "\u{a0}", "\u{2028}", "\r", "a\rb", "a\r",
];

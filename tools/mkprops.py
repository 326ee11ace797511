import json
P=[]
def add(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PF=["src/parser.rs"]
OBS=["return value of the public scene parse entry point (compared through its Debug rendering)"]
H="core is a private module: re-exported under --cfg pbrtrs_verif"
add("C01","Parsing any text ends with a scene or an error, never a crash",
 "For every input text, parsing terminates and returns either a scene or an error value: it never panics, overflows arithmetic, exhausts the stack or loops forever. This holds whatever the characters, number magnitudes, run lengths of comments, blanks, digits, list items or directives, and wherever the text stops.",
 ["inputs","configurations"],"every text, in both float precisions; explored: all texts up to a length over a character alphabet that covers every lexer branch, all token sequences up to a length, every Unicode scalar value in each lexical context, and every construct repeated up to 200000 times on a fixed stack",
 "The 36 tests parse some 35 short texts, nearly all well formed; none has an overflowing exponent, a long run of comments, or a text that stops in the middle of a construct.",
 PF,[("character cursor with end-of-input checks","src/parser.rs Tokenizer::peek/next"),("checked number conversion","src/parser.rs Tokenizer::tokenize_num"),("token cursor with end-of-input checks","src/parser.rs Parser::peek/next/pos")],observe=OBS)
add("C02","Numeric literals are delivered with exactly their decimal value",
 "A well-formed number (optional sign, decimal digits, optional fraction, optional power-of-ten exponent) is delivered as that exact integer when it has no fraction and no negative exponent and fits in 64 signed bits, and otherwise as the nearest representable floating-point value; a plain integer too big for 64 bits may instead be rejected. Where a float is expected an integer literal stands for the same value, where an integer is expected a non-integer literal is refused, and a malformed numeral makes the parse fail.",
 ["inputs","configurations"],"every numeral spelling; explored: all character strings up to length 8 (10 thorough) over sign, digits, point and exponent characters, in float and integer positions, plus complete sweeps of integers, digit counts and exponents across both ends of the range",
 "Tests check nine literals; the value of a literal depends on sign, fraction, exponent sign and magnitude together.",
 PF,[("number scanner and conversion","src/parser.rs Tokenizer::tokenize_num"),("int-to-float promotion","src/parser.rs Parser::parse_float"),("integer acceptance","src/parser.rs Parser::parse_int")],observe=OBS)
add("C03","Layout, comments and line endings never change the parsed scene",
 "Apart from source positions, the parsed scene depends only on the sequence of tokens: any mix of blanks, tabs, newlines, Unicode white space and #-comments (which run to the end of the line, whatever they contain) may separate tokens, and tokens that cannot run together need no separator at all. Replacing every LF by CRLF leaves the result, positions included, unchanged.",
 ["inputs"],"every layout of every token sequence; explored: all choices of separator in each gap of base scenes with up to 2 (3 thorough) gaps departing from a single blank, every Unicode scalar inside a comment, every white-space scalar as a separator, LF/CRLF conversion of the explored texts",
 "Tests use a single layout per construct and one comment style; nothing compares two layouts of one scene.",
 PF,[("white-space and comment skipping","src/parser.rs Tokenizer::tokenize_one"),("line-ending normalisation","src/parser.rs Tokenizer::new"),("token ends","src/parser.rs tokenize_num/tokenize_id/tokenize_str")],observe=OBS)
add("C04","Quoted strings are delivered verbatim after unescaping",
 "Every quoted string reaches the scene (as directive type, name, path, or string value) with exactly its characters: backslash-n stands for a newline, a backslash before any other character stands for that character, and everything else, including #, brackets, newlines and any Unicode character, stands for itself. A string that is not closed by an unescaped quote makes the parse fail.",
 ["inputs"],"every string content in every place a string can occur; explored: all raw bodies up to length 5 (6 thorough) over an alphabet of every character special to the lexer, every Unicode scalar raw and escaped, lengths up to 70000",
 "Tests contain no escape, no special character inside a string and no unterminated string.",
 PF,[("string scanner","src/parser.rs Tokenizer::tokenize_str"),("string delivery","src/parser.rs Parser::parse_string, parse_directive, parse_predirective, parse_spectrum")],observe=OBS)
add("C05","Source positions attached to the scene are exact",
 "Every directive, block, texture and parameter in a parsed scene carries the 1-based row and column of its first character in the source. Columns count characters, a row ends at LF or CRLF, and this holds after any mixture of comments, blank lines, tabs, multi-line or escaped strings and non-ASCII characters, for rows and columns of any size.",
 ["inputs"],"every layout; explored: all separator choices in every gap of base scenes, strings spanning lines, every Unicode scalar placed before a construct on its line, rows and columns swept past 70000",
 "Tests check positions for two files with one layout each.",
 PF,[("position update per character","src/parser.rs Tokenizer::next"),("start position capture","src/parser.rs tokenize_* and parse_directive/parse_predirective/parse_param_list")],state=[("pos","row and column of the next character","src/parser.rs Tokenizer")],observe=OBS)
add("C06","Block nesting and directive order in the world section are preserved",
 "Between the world's begin and its matching end, the parsed tree holds exactly the directives and blocks written there: each once, in source order, under the block that encloses it, with its own kind and type. Sequences whose block begins and ends do not pair up by kind, and blocks that are never closed, make the parse fail.",
 ["inputs","histories"],"every sequence of block begins, block ends and leaf directives; explored: all such sequences up to length 7 (9 thorough) over every kind, plus nesting and sibling-count sweeps",
 "Tests contain two nestings, in both of which the first block end is the last thing in the world, so nothing after a nested block was ever observed.",
 PF,[("block parsing and end matching","src/parser.rs Parser::parse_directives"),("directive dispatch","src/parser.rs Parser::parse_directive")],observe=OBS)
add("C07","Parameters arrive complete, in order, under their declared type",
 "Each parameter of a directive is delivered in that directive and no other, once, under the type its header declares, with its name and all its values in source order; parameters of one type keep their relative order, and repeated names are all kept. A single value and a one-element bracketed list are equivalent where both are allowed; pairs and triples are grouped consecutively.",
 ["inputs"],"every parameter sequence on every directive kind; explored: all sequences of up to 3 (4 thorough) parameters over every type and value form on every directive that takes parameters, list lengths 1..300 and beyond, pairs of consecutive directives",
 "Tests use eight parameter lists, never more than four parameters, and leave out bool, string list, vector2, xyz, blackbody and repeated names.",
 PF,[("parameter dispatch","src/parser.rs Parser::parse_param_list(s)"),("value lists","src/parser.rs parse_list/parse_list_of_n/parse_one_or_list/parse_many/parse_n/parse_spectrum")],observe=OBS)
add("C08","A malformed parameter makes the whole parse fail",
 "If a parameter's header is not exactly a known type and a name, or its value is missing, of the wrong type, of the wrong length (three numbers for rgb and xyz, two for blackbody, an even number for spectrum samples and 2D points), empty, or not properly bracketed, then parsing fails. No scene is ever returned in which a written parameter has been dropped, shortened or reinterpreted.",
 ["inputs"],"every value token sequence after every header; explored: all token sequences up to length 5 (6 thorough; 7 and 9 over a smaller alphabet) over brackets, integers, floats, strings, booleans and identifiers after every header kind, in pre-world and world position, followed by a valid rest",
 "Tests cover five malformed lists, each in isolation on an internal routine and never through the public parse.",
 PF,[("error propagation from parameters","src/parser.rs Parser::parse_param_lists"),("arity and type checks","src/parser.rs parse_list, parse_list_of_n, parse_spectrum, parse_bool, parse_int")],observe=OBS)
add("C09","Pre-world directives arrive in order with exactly their arguments",
 "Everything before the world section is delivered as one entry per directive, in source order, with its kind and all its arguments in source order (a matrix row by row). A transform directive is accepted with exactly its number of numeric arguments and refused with any other number; options keep their type string and parameters.",
 ["inputs","histories"],"every sequence of pre-world directives; explored: all sequences of up to 5 (6 thorough) of the 18 kinds, every argument count 0..20 for every numeric directive, all int/float spellings per argument",
 "Tests cover 6 of 18 kinds in one file; wrong argument counts are never tried.",
 PF,[("pre-world dispatch and arity checks","src/parser.rs Parser::parse_predirective(s)")],observe=OBS)
add("C10","A truncated scene file is never accepted",
 "If a valid scene text is cut anywhere before the end that closes its world section is complete, parsing the remaining prefix fails. A partial scene is never returned as if it were whole.",
 ["crash_points","inputs"],"every cut point of every valid scene; explored: every character cut of all scenes with up to 4 (5 thorough) items drawn from every directive and parameter form",
 "No test parses an incomplete file.",
 PF,[("end-of-input errors","src/parser.rs Parser::peek, parse_directives, parse_predirectives; Tokenizer::tokenize_str")],observe=OBS)
add("C11","Parsing is a pure function of the text",
 "Parsing a text gives the same result regardless of which texts were parsed before, on the same or another thread, whether those succeeded or failed, and however often it is repeated.",
 ["histories","schedules"],"every history of parse calls; explored: all call sequences up to length 3 (4 thorough) over valid, failing and truncated texts, on one thread and alternating over two threads, each result compared with that of a fresh process",
 "Each test parses one text once.",
 PF,[("fresh tokenizer and parser state per call","src/parser.rs Parser::parse, Parser::new, Tokenizer::new")],observe=OBS)
add("C12","Only known directives are accepted, each only in its own section",
 "A directive name is recognised only when spelled exactly (case included) and only in the section it belongs to: options and transforms before the world section, shapes, materials, lights, textures and blocks inside it, file inclusion in both. Anything else where a directive is expected (unknown names, other tokens, missing required strings) makes the parse fail.",
 ["inputs"],"every identifier and token at every directive position; explored: every one-character edit and case variant of every name, all identifiers up to length 3 over a small alphabet, every name in every section and block kind, all token sequences up to length 5 (6 thorough) at a directive position",
 "No test contains an unknown or misplaced directive.",
 PF,[("keyword dispatch","src/parser.rs Parser::parse_directive, parse_predirective, parse_directives, parse_predirectives")],observe=OBS)
add("C13","Errors point at the fault",
 "When a scene is refused because of a token that does not fit, the error message cites a source position, and every position an error message cites is the 1-based row and column of a token of the faulty directive, no earlier than that directive's first token and no later than the offending token or character.",
 ["inputs"],"every erroneous text; explored: all token sequences up to a length with an error at every possible token, in several layouts, and all character strings up to a length with a lexical error",
 "One test checks one message (a malformed exponent).",
 PF,[("positions in messages","src/parser.rs all ParserError::Str and TokenizerError::Str sites")],observe=["message of the error returned by the public parse entry point"])
MF=["src/core/matrix.rs"]
add("C14","4x4 matrices add, multiply, transpose and index by the laws of algebra",
 "Matrix sum is entrywise, product is row-by-column in the written order, and transpose exchanges rows and columns, for integer and floating-point entries; indexing by row returns that row. Hence product is associative, distributes over sum, has the identity as unit, and reverses under transpose.",
 ["inputs"],"every pair of matrices; explored: all pairs of elementary and 0/1-pattern matrices, complete closures under the operations from generator sets, all basis products entry by entry",
 "One integer product is tested; sum, transpose and indexing never.",
 MF,[("entrywise loops","src/core/matrix.rs Add, Mul, transpose, Index")],observe=["public matrix type and its operators"],hook=None)
add("C15","Matrix inversion is right or refused",
 "For every invertible 4x4 matrix (integer or floating-point), inversion returns the matrix whose product with the original, on either side, is the identity up to rounding, whatever pivoting it needs. A matrix with a zero row or column, or one with entries -1, 0 and 1 and two equal rows or columns, is refused (the call panics) rather than given a made-up inverse.",
 ["inputs"],"every matrix; explored: all 65536 0/1 matrices and all 43046721 {-1,0,1} matrices (thorough; quick: a complete sub-family), all signed permutation matrices with scale choices, against exact integer adjugates",
 "One matrix is inverted in a test, needing one row exchange.",
 MF,[("Gauss-Jordan elimination with full pivoting","src/core/matrix.rs Matrix4::inverse, mat4swap")],observe=["public matrix type"],hook=None)
TF=["src/core/transform.rs","src/core/vector.rs"]
add("C16","A transform always carries its true inverse",
 "However a transform is obtained (translation, non-zero scaling, from an invertible matrix, or by inverting or transposing another one), the matrix of its inverse is the mathematical inverse of its own matrix, and inverting twice gives the original back. Mapping a vector by a transform applies the linear part of its matrix only, so that translations leave vectors unchanged, scalings scale each component, and mapping by the inverse undoes it; the identity test accepts only the identity, and the scale test is positive exactly when some axis vector changes length beyond 0.1% in squared length.",
 ["inputs","histories"],"every chain of transform operations; explored: all sequences of inversions and transpositions up to length 5 from every constructor over a value grid (translations, scalings, all 0/1 matrices, all affine matrices over -1..1, monomials, rotations, near-identities), each state checked",
 "No test constructs a transform.",
 TF,[("paired matrix and inverse","src/core/transform.rs Transform::new/new_/inverse/transpose/translate/scale"),("vector mapping","src/core/vector.rs Vector3::transform")],observe=["matrices of the transform and of its inverse"],hook=H)
BF=["src/core/boundingbox.rs"]
add("C17","Bounding boxes behave as sets of points",
 "A box built from two corners, in any order, contains exactly the points between them per axis (inclusive; the half-open test excludes the upper faces). Union is the smallest box containing both operands, intersection contains exactly the points in both (none if they are disjoint), overlap is true exactly when some point is in both, growing by a non-negative margin moves every face outward by it, and the eight corner indices name the eight corners, one bit per axis.",
 ["inputs","histories"],"all pairs of boxes and all points; explored: every pair of boxes over a coordinate grid, against every point of a finer grid, and all operation sequences from them up to a depth, integer and float",
 "No test touches bounding boxes.",
 BF,[("per-axis min/max","src/core/boundingbox.rs Bounds3"),("ordering helpers","src/core/mod.rs pmin, pmax")],observe=["corner fields and predicates of boxes"],hook=H)
add("C18","Iterating an integer 2D box visits each cell exactly once",
 "Iterating an integer 2D box yields every lattice point from its lower corner up to but excluding its upper corner, each exactly once, row by row with x running fastest, and then stays exhausted. An empty or inverted box yields nothing.",
 ["inputs"],"every 2D integer box; explored: all boxes with corner coordinates in [-6,6] (wider thorough), long thin boxes, offsets near the ends of the integer range",
 "No test iterates a box.",
 BF,[("iterator stepping","src/core/boundingbox.rs Bounds2Iter::next, IntoIterator")],state=[("x,y","next cell","Bounds2Iter")],observe=["sequence of points yielded"],hook=H)
add("C19","Vector, point and normal arithmetic obeys affine algebra",
 "Addition, subtraction, negation, scaling and division act component by component (so p + (q - p) = q, and dividing undoes scaling), dot and cross products, squared length and length have their Euclidean values, and component-wise min, max, abs, floor, ceil, permutation, extreme components and extreme axis agree with their definitions. Flipping a vector or normal toward another leaves a non-negative dot product, conversions keep components, and by-reference operators agree with by-value ones.",
 ["inputs"],"all operands; explored: all pairs of triples over a signed value alphabet (integer and float), every operation, plus all operation chains up to a depth on a register machine",
 "No test touches vectors, points or normals.",
 ["src/core/vector.rs","src/core/point.rs","src/core/normal.rs","src/core/mod.rs"],[("component-wise operators","src/core/vector.rs, point.rs, normal.rs"),("pmin/pmax","src/core/mod.rs")],observe=["component fields of results"],hook=H)
add("C20","Box measures and interpolation agree with the box's geometry",
 "Diagonal, surface area and volume are those of the box, the maximum extent names an axis of greatest length, linear interpolation at 0 and 1 per axis gives the corners, and the relative offset of a point inverts that interpolation on every axis of positive length (on a flat axis it is the plain difference). The bounding sphere is centred in the box and its radius is the distance to a corner.",
 ["inputs"],"all boxes and points; explored: every box over a coordinate grid with every interpolation parameter and point of a grid",
 "No test touches bounding boxes.",
 BF+["src/core/mod.rs"],[("measures","src/core/boundingbox.rs diagonal, surface_area, volume, maximum_extent, offset, bounding_sphere, lerp"),("scalar lerp","src/core/mod.rs lerp")],observe=["returned numbers and points"],hook=H)
add("C21","Rays and ray differentials evaluate along their line",
 "The point of a ray at parameter t is origin plus t times direction; a ray made without limits has infinite extent and time zero. A fresh ray differential has no differentials (none flagged, all auxiliary origins and directions zero), scaling differentials by s moves each auxiliary origin and direction to s times its offset from the main ray (1 keeps, 0 collapses, s then t equals s*t), and interpolating between points at 0 and 1 gives the end points, affinely in between.",
 ["inputs","histories"],"all rays, parameters and scaling sequences; explored: all combinations over a value grid and all scaling sequences up to length 6 (7 thorough)",
 "No test constructs a ray.",
 ["src/core/ray.rs","src/core/point.rs"],[("ray evaluation","src/core/ray.rs Ray::at, new_infinite"),("differential scaling","src/core/ray.rs RayDifferential::scale_differentials"),("point interpolation","src/core/point.rs lerp")],observe=["fields of rays and differentials"],hook=H)
add("C22","A unit vector always extends to a right-handed orthonormal frame",
 "For every unit vector, the two vectors completing it to a coordinate system have unit length, are perpendicular to it and to each other up to rounding, and the third is the cross product of the first two, for every direction including the axes.",
 ["inputs"],"all unit vectors; explored: all directions with integer coordinates in [-60,60] (wider thorough), normalised, plus near-axis directions",
 "No test builds a frame.",
 ["src/core/vector.rs"],[("axis choice and normalisation","src/core/vector.rs coordinate_system")],observe=["the two returned vectors"],hook=H)
add("C23","Scalar helpers are right for every number",
 "A point is reported to hold not-a-number exactly when at least one of its coordinates is not-a-number (never for integer points). The least and the greatest of a non-empty list free of not-a-number are elements of the list that no other element undercuts or exceeds, wherever they stand in it. Converting an integer to floating point gives the nearest representable value, a float converts to itself, and the extreme values of a number type bound all its values. Scalar interpolation between two finite values gives the first at 0, the second at 1, and their affine combination elsewhere, up to rounding.",
 ["inputs"],"all numbers; explored: every bit pattern of an f32 coordinate (structured patterns for f64), all lists up to length 6 (7 thorough) over 9 values, all integers within 2^19 and all with up to three bits set, all pairs of special values at 81 parameters",
 "No test calls these helpers; they sit under every box, vector and matrix operation.",
 ["src/core/mod.rs"],[("not-a-number test","src/core/mod.rs HasNan, ElemType::is_nan"),("list extremes","src/core/mod.rs pmin, pmax"),("conversions","src/core/mod.rs ToFloat, ElemType"),("scalar interpolation","src/core/mod.rs lerp")],observe=["returned numbers and booleans"],hook=H)
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s)
print(len(P))

// Written by calibrate.py from 633895 measured operations: kind, operation, shape, steps per search, steps per segment.
namespace sim { struct Limit { const char* kind; const char* op; int shape; double per_search, per_segment; };
extern const Limit work_limits[];
const Limit work_limits[] = {
{"element map", "&= element", 5, 73, 85},
{"element map", "&= key", 5, 59, 84},
{"element map", "&= keys", 8, 40, 84},
{"element map", "&= map", 8, 40, 181},
{"element map", "()", 2, 40, 0},
{"element map", "+= element", 2, 44, 0},
{"element map", "+= map", 7, 40, 60},
{"element map", "-= element", 2, 40, 0},
{"element map", "-= keys", 7, 40, 60},
{"element map", "-= map", 7, 40, 337},
{"element map", "==", 6, 40, 60},
{"element map", "[]", 2, 48, 0},
{"element map", "^= map", 8, 40, 198},
{"element map", "add at a fitting position", 1, 27, 0},
{"element map", "add element", 2, 49, 0},
{"element map", "clear", 5, 40, 84},
{"element map", "contains element", 2, 40, 0},
{"element map", "contains key", 2, 40, 0},
{"element map", "contains keys", 7, 40, 60},
{"element map", "contains map", 7, 40, 60},
{"element map", "contains part of itself", 7, 40, 60},
{"element map", "copy", 5, 69, 176},
{"element map", "domain", 5, 91, 273},
{"element map", "erase by iterator", 0, 21, 0},
{"element map", "erase element", 2, 40, 0},
{"element map", "erase key", 2, 40, 0},
{"element map", "erase keys", 7, 40, 60},
{"element map", "erase map", 7, 40, 60},
{"element map", "erase_if", 5, 45, 97},
{"element map", "find", 2, 40, 0},
{"element map", "flip element", 2, 42, 0},
{"element map", "flip element", 5, 41, 60},
{"element map", "insert at a fitting position", 1, 23, 0},
{"element map", "insert element", 2, 41, 0},
{"element map", "insert map", 7, 40, 329},
{"element map", "intersects key", 2, 40, 0},
{"element map", "intersects map", 9, 40, 0},
{"element map", "is_distinct_equal", 6, 48, 127},
{"element map", "is_element_equal", 6, 40, 60},
{"element map", "is_empty", 0, 16, 0},
{"element map", "iterative_size", 0, 16, 0},
{"element map", "map + map", 8, 116, 267},
{"element map", "move", 0, 29, 0},
{"element map", "set element", 2, 44, 0},
{"element map", "size", 0, 16, 0},
{"element map", "subtract element", 2, 40, 0},
{"element map", "subtract key", 2, 40, 0},
{"element map", "swap", 0, 17, 0},
{"element set", "&= element", 5, 64, 75},
{"element set", "&= set", 8, 43, 75},
{"element set", "+= element", 2, 40, 0},
{"element set", "+= set", 7, 40, 60},
{"element set", "-= set", 7, 40, 60},
{"element set", "^= set", 7, 40, 259},
{"element set", "add at a fitting position", 1, 17, 0},
{"element set", "add element", 2, 40, 0},
{"element set", "clear", 5, 40, 75},
{"element set", "contains element", 2, 40, 0},
{"element set", "contains part of itself", 7, 40, 60},
{"element set", "contains set", 7, 40, 60},
{"element set", "erase element", 2, 40, 0},
{"element set", "erase set", 7, 40, 60},
{"element set", "erase_if", 5, 46, 102},
{"element set", "flip element", 2, 40, 0},
{"element set", "insert at a fitting position", 1, 17, 0},
{"element set", "insert element", 2, 40, 0},
{"element set", "insert set", 7, 40, 211},
{"element set", "intersects element", 2, 40, 0},
{"element set", "intersects set", 9, 40, 0},
{"element set", "is_element_equal", 6, 40, 60},
{"element set", "is_empty", 0, 16, 0},
{"element set", "iterative_size", 0, 16, 0},
{"element set", "size", 0, 16, 0},
{"element set", "subtract element", 2, 40, 0},
{"map", "&= interval", 5, 300, 914},
{"map", "&= keys", 8, 300, 300},
{"map", "&= map", 8, 300, 4058},
{"map", "&= segment", 5, 448, 8988},
{"map", "+= element", 2, 484, 0},
{"map", "+= map", 7, 300, 790},
{"map", "+= segment", 3, 597, 1682},
{"map", "-= interval", 3, 300, 300},
{"map", "-= keys", 7, 300, 2289},
{"map", "-= map", 7, 300, 1511},
{"map", "-= segment", 3, 357, 300},
{"map", "<", 6, 300, 809},
{"map", "==", 6, 300, 300},
{"map", "== itself", 5, 300, 300},
{"map", "^= element", 2, 724, 0},
{"map", "^= map", 7, 300, 2782},
{"map", "absorb_identities", 5, 300, 300},
{"map", "add at a fitting position", 1, 68, 0},
{"map", "add at a position", 3, 657, 1676},
{"map", "add element", 2, 502, 0},
{"map", "add segment", 3, 560, 1713},
{"map", "add_intersection interval", 3, 411, 1382},
{"map", "add_intersection key", 2, 300, 0},
{"map", "add_intersection segment", 4, 544, 0},
{"map", "assign", 6, 300, 300},
{"map", "between", 5, 461, 2261},
{"map", "borders", 0, 60, 0},
{"map", "cardinality", 5, 300, 300},
{"map", "clear", 5, 300, 300},
{"map", "construct", 6, 300, 1010},
{"map", "contains element", 2, 300, 0},
{"map", "contains interval", 3, 300, 300},
{"map", "contains key", 2, 300, 0},
{"map", "contains keys", 7, 300, 300},
{"map", "contains map", 7, 300, 300},
{"map", "contains part of itself", 7, 300, 300},
{"map", "contains segment", 3, 300, 300},
{"map", "convert", 6, 300, 906},
{"map", "copy", 5, 300, 300},
{"map", "disjoint interval", 2, 300, 0},
{"map", "domain", 5, 365, 1476},
{"map", "element iteration", 10, 300, 300},
{"map", "ends", 0, 18, 0},
{"map", "equal_range", 2, 300, 0},
{"map", "erase by iterator", 0, 22, 0},
{"map", "erase element", 2, 300, 0},
{"map", "erase interval", 3, 300, 300},
{"map", "erase key", 2, 300, 0},
{"map", "erase keys", 7, 300, 889},
{"map", "erase map", 7, 300, 300},
{"map", "erase range", 5, 300, 300},
{"map", "erase segment", 3, 300, 300},
{"map", "erase_if", 5, 300, 300},
{"map", "find interval", 2, 300, 0},
{"map", "find key", 2, 300, 0},
{"map", "flip element", 2, 727, 0},
{"map", "flip segment", 4, 692, 0},
{"map", "hull", 0, 77, 0},
{"map", "icl::add at a fitting position", 1, 68, 0},
{"map", "icl::find interval", 2, 300, 0},
{"map", "icl::find key", 2, 300, 0},
{"map", "icl::insert at a fitting position", 1, 79, 0},
{"map", "icl::iterative_size", 0, 16, 0},
{"map", "icl::swap", 0, 18, 0},
{"map", "insert at a fitting position", 1, 79, 0},
{"map", "insert at a position", 3, 877, 2199},
{"map", "insert element", 2, 315, 0},
{"map", "insert map", 7, 300, 626},
{"map", "insert segment", 3, 827, 2435},
{"map", "intersects interval", 2, 300, 0},
{"map", "intersects key", 2, 300, 0},
{"map", "intersects keys", 7, 300, 362},
{"map", "intersects map", 7, 300, 300},
{"map", "intersects segment", 4, 585, 0},
{"map", "interval_count", 0, 16, 0},
{"map", "is_distinct_equal", 6, 300, 300},
{"map", "is_element_equal", 6, 300, 482},
{"map", "is_empty", 0, 17, 0},
{"map", "iterative_size", 0, 16, 0},
{"map", "join", 5, 300, 300},
{"map", "length", 5, 300, 300},
{"map", "lower_bound", 2, 300, 0},
{"map", "map & keys", 8, 300, 300},
{"map", "map & map", 8, 300, 2991},
{"map", "map + map", 8, 300, 1534},
{"map", "map - map", 8, 300, 1676},
{"map", "move", 0, 38, 0},
{"map", "set element", 2, 416, 0},
{"map", "set segment", 3, 429, 300},
{"map", "size", 5, 300, 300},
{"map", "subtract element", 2, 357, 0},
{"map", "subtract segment", 3, 371, 300},
{"map", "swap", 0, 17, 0},
{"map", "upper_bound", 2, 300, 0},
{"map", "within", 3, 300, 300},
{"map", "|= other style", 7, 300, 845},
{"set", "&= interval", 5, 374, 1078},
{"set", "&= other style", 8, 300, 1246},
{"set", "&= set", 8, 300, 762},
{"set", "+= element", 2, 424, 0},
{"set", "+= interval", 3, 547, 1119},
{"set", "+= set", 7, 300, 975},
{"set", "-= interval", 3, 300, 300},
{"set", "-= set", 7, 300, 418},
{"set", "<", 6, 300, 389},
{"set", "==", 6, 300, 300},
{"set", "== itself", 5, 300, 300},
{"set", "^= interval", 4, 441, 0},
{"set", "^= set", 7, 300, 3191},
{"set", "add at a fitting position", 1, 72, 0},
{"set", "add at a position", 3, 546, 1117},
{"set", "add element", 2, 422, 0},
{"set", "add interval", 3, 529, 1115},
{"set", "add_intersection element", 2, 300, 0},
{"set", "add_intersection interval", 3, 403, 1401},
{"set", "assign", 6, 300, 300},
{"set", "between", 5, 438, 2268},
{"set", "borders", 0, 60, 0},
{"set", "cardinality", 5, 300, 300},
{"set", "clear", 5, 300, 300},
{"set", "construct", 6, 323, 1441},
{"set", "contains element", 2, 300, 0},
{"set", "contains interval", 2, 300, 0},
{"set", "contains interval", 3, 300, 300},
{"set", "contains other style", 7, 300, 300},
{"set", "contains part of itself", 7, 300, 300},
{"set", "contains set", 7, 300, 300},
{"set", "convert", 6, 300, 1441},
{"set", "copy", 5, 300, 300},
{"set", "disjoint interval", 2, 300, 0},
{"set", "disjoint other style", 7, 300, 300},
{"set", "element iteration", 10, 300, 300},
{"set", "ends", 0, 18, 0},
{"set", "equal_range", 2, 300, 0},
{"set", "erase by iterator", 0, 22, 0},
{"set", "erase element", 2, 300, 0},
{"set", "erase interval", 3, 300, 300},
{"set", "erase other style", 7, 300, 696},
{"set", "erase range", 5, 300, 300},
{"set", "find element", 2, 300, 0},
{"set", "find interval", 2, 300, 0},
{"set", "flip element", 2, 367, 0},
{"set", "flip interval", 4, 422, 0},
{"set", "hull", 0, 77, 0},
{"set", "icl::add at a fitting position", 1, 72, 0},
{"set", "icl::find element", 2, 300, 0},
{"set", "icl::find interval", 2, 300, 0},
{"set", "icl::insert at a fitting position", 1, 72, 0},
{"set", "icl::iterative_size", 0, 16, 0},
{"set", "icl::swap", 0, 18, 0},
{"set", "insert at a fitting position", 1, 72, 0},
{"set", "insert at a position", 3, 581, 1117},
{"set", "insert element", 2, 432, 0},
{"set", "insert interval", 3, 505, 1124},
{"set", "insert set", 7, 300, 873},
{"set", "intersects element", 2, 300, 0},
{"set", "intersects interval", 2, 300, 0},
{"set", "intersects set", 7, 300, 300},
{"set", "interval_count", 0, 16, 0},
{"set", "is_element_equal", 6, 300, 1177},
{"set", "is_element_less", 6, 300, 300},
{"set", "is_empty", 0, 17, 0},
{"set", "iterative_size", 0, 16, 0},
{"set", "join", 5, 300, 379},
{"set", "length", 5, 300, 300},
{"set", "lower_bound", 2, 300, 0},
{"set", "move", 0, 38, 0},
{"set", "set & set", 8, 300, 300},
{"set", "set + set", 8, 300, 1262},
{"set", "set - set", 8, 300, 902},
{"set", "set ^ set", 8, 300, 4192},
{"set", "size", 5, 300, 300},
{"set", "subtract element", 2, 300, 0},
{"set", "subtract interval", 3, 300, 300},
{"set", "swap", 0, 17, 0},
{"set", "upper_bound", 2, 300, 0},
{"set", "within", 2, 300, 0},
{"set", "within", 3, 300, 300},
{"set", "|= other style", 7, 300, 638},
{"total map", "&= interval", 5, 300, 896},
{"total map", "&= keys", 8, 300, 597},
{"total map", "&= map", 8, 300, 966},
{"total map", "&= segment", 5, 357, 1143},
{"total map", "+= element", 2, 472, 0},
{"total map", "+= map", 7, 300, 1380},
{"total map", "+= segment", 3, 654, 2839},
{"total map", "-= interval", 3, 300, 300},
{"total map", "-= keys", 7, 300, 341},
{"total map", "-= map", 7, 300, 675},
{"total map", "-= segment", 3, 514, 1125},
{"total map", "<", 6, 300, 809},
{"total map", "==", 6, 300, 300},
{"total map", "== itself", 5, 300, 300},
{"total map", "^= element", 5, 610, 501},
{"total map", "^= map", 8, 300, 2998},
{"total map", "absorb_identities", 5, 300, 300},
{"total map", "add at a fitting position", 1, 65, 0},
{"total map", "add at a position", 3, 682, 2824},
{"total map", "add element", 2, 465, 0},
{"total map", "add segment", 3, 732, 2782},
{"total map", "add_intersection interval", 3, 418, 1374},
{"total map", "add_intersection key", 2, 300, 0},
{"total map", "add_intersection segment", 5, 586, 2729},
{"total map", "assign", 6, 300, 300},
{"total map", "between", 5, 439, 2268},
{"total map", "borders", 0, 60, 0},
{"total map", "cardinality", 5, 300, 300},
{"total map", "clear", 5, 300, 300},
{"total map", "construct", 6, 300, 933},
{"total map", "contains element", 2, 300, 0},
{"total map", "contains interval", 3, 300, 300},
{"total map", "contains key", 2, 300, 0},
{"total map", "contains map", 7, 300, 300},
{"total map", "contains part of itself", 7, 300, 300},
{"total map", "contains segment", 3, 300, 300},
{"total map", "convert", 6, 300, 1213},
{"total map", "copy", 5, 300, 300},
{"total map", "disjoint interval", 2, 300, 0},
{"total map", "domain", 5, 375, 1450},
{"total map", "element iteration", 10, 300, 300},
{"total map", "ends", 0, 18, 0},
{"total map", "equal_range", 2, 300, 0},
{"total map", "erase by iterator", 0, 22, 0},
{"total map", "erase element", 2, 300, 0},
{"total map", "erase interval", 3, 300, 300},
{"total map", "erase key", 2, 300, 0},
{"total map", "erase keys", 7, 300, 300},
{"total map", "erase map", 7, 300, 361},
{"total map", "erase range", 5, 300, 300},
{"total map", "erase segment", 3, 300, 300},
{"total map", "erase_if", 5, 300, 300},
{"total map", "find interval", 2, 300, 0},
{"total map", "find key", 2, 300, 0},
{"total map", "flip segment", 5, 668, 1107},
{"total map", "hull", 0, 77, 0},
{"total map", "icl::add at a fitting position", 1, 65, 0},
{"total map", "icl::find interval", 2, 300, 0},
{"total map", "icl::find key", 2, 300, 0},
{"total map", "icl::insert at a fitting position", 1, 76, 0},
{"total map", "icl::iterative_size", 0, 16, 0},
{"total map", "icl::swap", 0, 18, 0},
{"total map", "insert at a fitting position", 1, 75, 0},
{"total map", "insert at a position", 3, 787, 2164},
{"total map", "insert element", 2, 362, 0},
{"total map", "insert map", 7, 300, 1123},
{"total map", "insert segment", 3, 836, 2175},
{"total map", "intersects interval", 2, 300, 0},
{"total map", "intersects key", 2, 300, 0},
{"total map", "intersects keys", 7, 300, 300},
{"total map", "intersects map", 7, 300, 300},
{"total map", "intersects segment", 4, 300, 0},
{"total map", "interval_count", 0, 16, 0},
{"total map", "is_distinct_equal", 6, 300, 300},
{"total map", "is_element_equal", 6, 300, 494},
{"total map", "is_empty", 0, 17, 0},
{"total map", "iterative_size", 0, 16, 0},
{"total map", "join", 5, 300, 372},
{"total map", "length", 5, 300, 300},
{"total map", "lower_bound", 2, 300, 0},
{"total map", "map & keys", 8, 300, 300},
{"total map", "map & map", 8, 300, 1056},
{"total map", "map + map", 8, 300, 942},
{"total map", "map - map", 8, 300, 1726},
{"total map", "move", 0, 38, 0},
{"total map", "set element", 2, 403, 0},
{"total map", "set segment", 3, 371, 300},
{"total map", "size", 5, 300, 300},
{"total map", "subtract element", 2, 455, 0},
{"total map", "subtract segment", 3, 502, 1136},
{"total map", "swap", 0, 17, 0},
{"total map", "upper_bound", 2, 300, 0},
{"total map", "value of a key", 2, 300, 0},
{"total map", "within", 3, 300, 300},
{"total map", "|= other style", 7, 300, 594},
{0, 0, 0, 0, 0}}; }

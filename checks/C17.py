"""C17: programs that break a static rule are rejected at the offending line; without the violation they are accepted."""
import os, re
from vf import pbt, c3

# A rule: (name, shared declarations, (good, bad) declarations or None, (good, bad) statements or None, flags).
# The line with //! in the bad text is the violation. flags: r no returns into other kinds of functions (keep to the
# plain function), l not inside loops or switches, d not inside defer.
R = []


def rule(name, decl="", D=None, S=None, f=""):
    R.append((name, decl, D, S, f))


P = "struct Pt { int x; long y; }\nstruct Qt { int x; long y; }\nenum En { AA, BB, CC }\nenum Em { DD, EE }\nfaultdef OOPS, EEK;\ntypedef Dist = int;\nunion Un { int i; double d; }\nbitstruct Bs : int { int lo : 0..3; bool hi : 4; }\nconst int KON = 5;\nint glob;\nfn int one() => 1;\nfn int addn(int a, int b = 2) => a + b;\nfn int? opt(int a) { if (a > 2) return OOPS?; return a; }\nfn void? voidopt(int a) { if (a > 2) return OOPS?; }\nfn int must() @nodiscard => 2;\nmacro mac(x) => x;\nfn int Pt.get(&self) => self.x;\nextern fn void vararg(char* a, ...);\nfn int sum(int... v) => 0;\n"
# --- names
rule("undeclared variable", S=("int {a} = {n}; int {b} = {a};", "int {a} = {n}; int {b} = {c}; //!"))
rule("undeclared function", S=("one();", "two(); //!"))
rule("undeclared function with arguments", S=("addn({n}, {n});", "addm({n}, {n}); //!"))
rule("undeclared type", S=("Pt {a};", "Pz {a}; //!"))
rule("undeclared type in a parameter", D=("fn void {f}(Pt* p) {{}}", "fn void {f}(Pz* p) {{}} //!"))
rule("undeclared return type", D=("fn Pt {f}(Pt p) => p;", "fn Pz {f}(Pt p) => p; //!"))
rule("undeclared member", S=("Pt {a}; {a}.x = {n};", "Pt {a};\n{a}.z = {n}; //!"))
rule("undeclared member read", S=("Pt {a}; int {b} = {a}.x;", "Pt {a};\nint {b} = {a}.w; //!"))
rule("undeclared union member", S=("Un {a}; {a}.i = {n};", "Un {a};\n{a}.f = {n}; //!"))
rule("undeclared bitstruct member", S=("Bs {a}; {a}.lo = 3;", "Bs {a};\n{a}.mid = 3; //!"))
rule("undeclared method", S=("Pt {a}; {a}.get();", "Pt {a};\n{a}.put(); //!"))
rule("undeclared enum value", S=("En {a} = BB;", "En {a} = ZZ; //!"))
rule("undeclared enum value with type", S=("En {a} = En.BB;", "En {a} = En.ZZ; //!"))
rule("value of another enum", S=("En {a} = BB;", "En {a} = DD; //!"))
rule("undeclared fault", D=("fn int? {f}() {{ return OOPS?; }}", "fn int? {f}() {{ return OOPZ?; }} //!"))
rule("undeclared constant", S=("int {a} = KON;", "int {a} = KAN; //!"))
rule("undeclared global", S=("glob = {n};", "globe = {n}; //!"))
rule("use before its declaration in the scope", S=("int {b} = {n}; int {a} = {b};", "int {a} = {b}; //!\nint {b} = {n};"))
rule("use after its scope", S=("int {a}; {{ int {b} = 1; {a} = {b}; }} {a} = {n};", "int {a}; {{ int {b} = 1; {a} = {b}; }}\n{a} = {b}; //!"))
rule("loop variable after the loop", S=("for (int {a} = 0; {a} < 3; {a}++) {{}} one();", "for (int {a} = 0; {a} < 3; {a}++) {{}}\n{a}++; //!"))
rule("foreach variable after the loop", S=("int[3] {b}; foreach ({a} : {b}) {{}} one();", "int[3] {b}; foreach ({a} : {b}) {{}}\nint {c} = {a}; //!"))
rule("if-try variable after the if", S=("if (try {a} = opt(1)) {{}} one();", "if (try {a} = opt(1)) {{}}\nint {b} = {a}; //!"))
rule("unknown module", D=("", "import nosuch{f}; //!"))
rule("unknown module prefix", S=("one();", "nosuch::one(); //!"))
rule("unknown builtin", S=("one();", "$$nosuch(1); //!"))
rule("unknown attribute", D=("fn void {f}() @inline {{}}", "fn void {f}() @nosuchattr {{}} //!"))
rule("attribute of another kind of declaration", D=("struct {T} @packed {{ int x; }}", "fn void {f}() @packed {{}} //!"))
# --- duplicates
rule("duplicate local", S=("int {a} = 1; int {b} = 2;", "int {a} = 1;\nint {a} = 2; //!"))
rule("shadowed local", S=("int {a} = 1; {{ int {b} = 2; }}", "int {a} = 1;\n{{ int {a} = 2; }} //!"))
rule("shadowed by a loop variable", S=("int {a} = 1; for (int {b} = 0; {b} < 2; {b}++) {{}}", "int {a} = 1;\nfor (int {a} = 0; {a} < 2; {a}++) {{}} //!"))
rule("shadowed by a foreach variable", S=("int {a} = 1; int[2] {c}; foreach ({b} : {c}) {{}}", "int {a} = 1; int[2] {c};\nforeach ({a} : {c}) {{}} //!"))
rule("duplicate parameter", D=("fn void {f}(int a, int b) {{}}", "fn void {f}(int a, int a) {{}} //!"))
rule("parameter shadowed", D=("fn void {f}(int a) {{ int b; }}", "fn void {f}(int a)\n{{\nint a; //!\n}}"))
rule("duplicate function", D=("fn void {f}() {{}}\nfn void {g}() {{}}", "fn void {f}() {{}}\nfn void {f}() {{}} //!"))
rule("duplicate global", D=("int {f};\nint {g};", "int {f};\nint {f}; //!"))
rule("global named as a function", D=("int {f};\nfn void {g}() {{}}", "int {f};\nfn void {f}() {{}} //!"))
rule("duplicate struct", D=("struct {T} {{ int x; }}\nstruct {U} {{ int x; }}", "struct {T} {{ int x; }}\nstruct {T} {{ int x; }} //!"))
rule("enum named as a struct", D=("struct {T} {{ int x; }}\nenum {U} {{ XX }}", "struct {T} {{ int x; }}\nenum {T} {{ XX }} //!"))
rule("duplicate member", D=("struct {T} {{ int x; int y; }}", "struct {T} {{\nint x;\nint x; //!\n}}"))
rule("duplicate nested member", D=("struct {T} {{ int x; struct {{ int y; }} }}", "struct {T} {{\nint x;\nstruct {{\nint x; //!\n}} }}"))
rule("duplicate union member", D=("union {T} {{ int x; long y; }}", "union {T} {{\nint x;\nlong x; //!\n}}"))
rule("duplicate bitstruct member", D=("bitstruct {T} : int {{ int x : 0..1; int y : 2..3; }}", "bitstruct {T} : int {{\nint x : 0..1;\nint x : 2..3; //!\n}}"))
rule("duplicate enum value", D=("enum {T} {{ XX, YY }}", "enum {T} {{\nXX,\nXX //!\n}}"))
rule("duplicate fault", D=("faultdef XX, YY;", "faultdef XX;\nfaultdef XX; //!"))
rule("duplicate method", D=("fn void Pt.{f}(&self) {{}}\nfn void Pt.{g}(&self) {{}}", "fn void Pt.{f}(&self) {{}}\nfn void Pt.{f}(&self) {{}} //!"))
rule("method named as a member", D=("fn void Pt.{f}(&self) {{}}", "fn void Pt.x(&self) {{}} //!"))
rule("duplicate macro", D=("macro {f}() {{}}\nmacro {g}() {{}}", "macro {f}() {{}}\nmacro {f}() {{}} //!"))
rule("duplicate constant", D=("const int XX = 1;\nconst int YY = 2;", "const int XX = 1;\nconst int XX = 2; //!"))
rule("duplicate alias", D=("alias {T} = int;\nalias {U} = long;", "alias {T} = int;\nalias {T} = long; //!"))
rule("duplicate label", S=("while LA: (one() == 2) {{ while LB: (one() == 2) {{ break LA; }} }}", "while LA: (one() == 2) {{\nwhile LA: (one() == 2) {{ break LA; }} //!\n}}"))
rule("duplicate named argument", S=("addn(a: 1, b: 2);", "addn(a: 1, a: 2); //!"))
rule("duplicate associated value", D=("enum {T} : int (int p, int q) {{ XX = {{ 1, 2 }} }}", "enum {T} : int (int p, int p) {{ XX = {{ 1, 2 }} }} //!"))
# --- calls
rule("too few arguments", S=("addn({n});", "addn(); //!"))
rule("too many arguments", S=("addn({n}, 2);", "addn({n}, 2, 3); //!"))
rule("arguments to a function without parameters", S=("one();", "one({n}); //!"))
rule("too few arguments to a method", D=("fn int Pt.{f}(&self, int a) => a;", "fn int Pt.{f}(&self, int a) => a;"), S=("Pt {a}; {a}.{f}(1);", "Pt {a};\n{a}.{f}(); //!"))
rule("too many arguments to a method", S=("Pt {a}; {a}.get();", "Pt {a};\n{a}.get(1); //!"))
rule("string for a number", S=("addn({n});", 'addn("{a}"); //!'))
rule("struct for a number", S=("Pt {a}; addn({a}.x);", "Pt {a};\naddn({a}); //!"))
rule("number for a struct", D=("fn void {f}(Pt p) {{}}", "fn void {f}(Pt p) {{}}"), S=("Pt {a}; {f}({a});", "Pt {a};\n{f}({n}); //!"))
rule("another struct", D=("fn void {f}(Pt p) {{}}", "fn void {f}(Pt p) {{}}"), S=("Pt {a}; {f}({a});", "Qt {a};\n{f}({a}); //!"))
rule("pointer to another type", D=("fn void {f}({i}* p) {{}}", "fn void {f}({i}* p) {{}}"), S=("{i} {a}; {f}(&{a});", "{j} {a};\n{f}(&{a}); //!"))
rule("value for a pointer", D=("fn void {f}({i}* p) {{}}", "fn void {f}({i}* p) {{}}"), S=("{i} {a}; {f}(&{a});", "{i} {a};\n{f}({a}); //!"))
rule("pointer for a value", S=("int {a}; addn({a});", "int {a};\naddn(&{a}); //!"))
rule("wide variable for a narrow parameter", S=("int {a}; addn({a});", "long {a};\naddn({a}); //!"))
rule("wide variable for a narrow second parameter", S=("int {a}; addn(1, {a});", "long {a};\naddn(1, {a}); //!"))
rule("unknown named argument", S=("addn(a: 1, b: 2);", "addn(a: 1, c: 2); //!"))
rule("named argument given by position", S=("addn(1, b: 2);", "addn(1, a: 2); //!"))
rule("required argument missing beside named", S=("addn(b: 1, a: 2);" if False else "addn(1, b: 1);", "addn(b: 1); //!"))
rule("wrong type among variadics", S=("sum(1, 2, 3);", 'sum(1, "x", 3); //!'))
rule("wide value among variadics", S=("int {a}; sum(1, {a});", "long {a};\nsum(1, {a}); //!"))
rule("splat of another element type", S=("int[3] {a}; sum(...{a});", "double[3] {a};\nsum(...{a}); //!"))
rule("calling a variable", S=("one();", "int {a};\n{a}(); //!"))
rule("calling a type as a function", S=("one();", "Pt(); //!"))
rule("function pointer called with another count", D=("alias {T} = fn int(int);", "alias {T} = fn int(int);"), S=("{T} {a} = fn int(int v) => v; {a}({n});", "{T} {a} = fn int(int v) => v;\n{a}({n}, 1); //!"))
rule("function pointer of another signature", D=("alias {T} = fn int(int, int);\nalias {U} = fn int(long);", "alias {T} = fn int(int, int);\nalias {U} = fn int(long);"), S=("{T} {a} = &addn;", "{U} {a} = &addn; //!"))
rule("function pointer of another result", D=("alias {T} = fn int();\nalias {U} = fn long();", "alias {T} = fn int();\nalias {U} = fn long();"), S=("{T} {a} = &one;", "{U} {a} = &one; //!"))
rule("lambda of another result", D=("alias {T} = fn int();", "alias {T} = fn int();"), S=("{T} {a} = fn int() => 1;", "{T} {a} = fn String() => \"\"; //!"))
rule("method of another type", D=("fn void Qt.{f}(&self) {{}}", "fn void Qt.{f}(&self) {{}}"), S=("Qt {a}; {a}.{f}();", "Pt {a};\n{a}.{f}(); //!"))
rule("macro with too few arguments", S=("mac(1);", "mac(); //!"))
rule("macro with too many arguments", S=("mac(1);", "mac(1, 2); //!"))
rule("macro parameter of another type", D=("macro {f}(int x) => x;", "macro {f}(int x) => x;"), S=("{f}(1);", '{f}("s"); //!'))
rule("run-time value for a constant parameter", D=("macro {f}($x) => $x;", "macro {f}($x) => $x;"), S=("int {a}; {f}(3);", "int {a};\n{f}({a}); //!"))
rule("body without a macro that takes one", D=("macro @{f}(;@body) {{ @body(); }}", "macro {f}() {{}}"), S=("@{f}() {{ one(); }};", "{f}() {{ one(); }}; //!"))
rule("missing body", D=("macro @{f}(;@body) {{ @body(); }}", "macro @{f}(;@body) {{ @body(); }}"), S=("@{f}() {{ one(); }};", "@{f}(); //!"))
rule("body with another parameter count", D=("macro @{f}(;@body(x)) {{ @body(1); }}", "macro @{f}(;@body(x)) {{ @body(1); }}"), S=("@{f}(; int {a}) {{ one(); }};", "@{f}(; int {a}, int {b}) {{ one(); }}; //!"))
# --- conversions
for a, b in [("int", "long"), ("short", "int"), ("ichar", "short"), ("char", "uint"), ("ushort", "ulong"), ("long", "int128"), ("uint", "ulong"), ("float", "double"), ("int", "double"), ("long", "float"), ("char", "double")]:
    rule(f"{b} variable to {a}", S=(f"{b} {{a}}; {a} {{b}} = ({a}){{a}};", f"{b} {{a}};\n{a} {{b}} = {{a}}; //!"))
    rule(f"{b} assigned to {a}", S=(f"{b} {{a}}; {a} {{b}}; {{b}} = ({a}){{a}};", f"{b} {{a}}; {a} {{b}};\n{{b}} = {{a}}; //!"))
    rule(f"{b} returned as {a}", D=(f"fn {a} {{f}}({b} v) {{{{ return ({a})v; }}}}", f"fn {a} {{f}}({b} v)\n{{{{\nreturn v; //!\n}}}}"))
    rule(f"{b} member initializer for {a}", D=(f"struct {{T}} {{{{ {a} m; int z; }}}}", f"struct {{T}} {{{{ {a} m; int z; }}}}"), S=(f"{b} {{a}}; {{T}} {{b}} = {{{{ ({a}){{a}}, 1 }}}};", f"{b} {{a}};\n{{T}} {{b}} = {{{{ {{a}}, 1 }}}}; //!"))
    rule(f"{b} array element for {a}", S=(f"{b} {{a}}; {a}[2] {{b}} = {{{{ ({a}){{a}}, 1 }}}};", f"{b} {{a}};\n{a}[2] {{b}} = {{{{ 1, {{a}} }}}}; //!"))
    rule(f"{b} added in place to {a}", S=(f"{b} {{a}}; {a} {{b}}; {{b}} += ({a}){{a}};", f"{b} {{a}}; {a} {{b}};\n{{b}} = {{b}} + {{a}}; //!"))
rule("sum wider than its operands", S=("int {a}; long {b}; long {c} = (long){a} + {b};", "int {a}; long {b};\nint {c} = {a} + {b}; //!"))
rule("integer to pointer", S=("int {a}; void* {b} = null;", "int {a};\nvoid* {b} = {a}; //!"))
rule("pointer to integer", S=("int* {a}; int* {b} = {a};", "int* {a};\nint {b} = {a}; //!"))
rule("pointer to another pointer", S=("{i}* {a}; {i}* {b} = {a};", "{i}* {a};\n{j}* {b} = {a}; //!"))
rule("struct pointer to another", S=("Pt* {a}; Pt* {b} = {a};", "Pt* {a};\nQt* {b} = {a}; //!"))
rule("struct to another", S=("Pt {a}; Pt {b} = {a};", "Pt {a};\nQt {b} = {a}; //!"))
rule("number to a struct", S=("Pt {a}; Pt {b} = {a};", "int {a};\nPt {b} = {a}; //!"))
rule("struct to a number", S=("Pt {a}; int {b} = {a}.x;", "Pt {a};\nint {b} = {a}; //!"))
rule("enum to another", S=("En {a}; En {b} = {a};", "En {a};\nEm {b} = {a}; //!"))
rule("number to an enum", S=("En {a} = AA;", "int {b};\nEn {a} = {b}; //!"))
rule("variable to a distinct type", S=("int {a}; Dist {b} = (Dist){a};", "int {a};\nDist {b} = {a}; //!"))
rule("distinct type to its base", S=("Dist {a}; int {b} = (int){a};", "Dist {a};\nint {b} = {a}; //!"))
rule("array of another length", S=("int[3] {a}; int[3] {b} = {a};", "int[3] {a};\nint[4] {b} = {a}; //!"))
rule("array of another element", S=("int[3] {a}; int[3] {b} = {a};", "int[3] {a};\nlong[3] {b} = {a}; //!"))
rule("slice of another element", S=("int[] {a}; int[] {b} = {a};", "int[] {a};\nlong[] {b} = {a}; //!"))
rule("slice to an array", S=("int[3] {a}; int[3] {b} = {a};", "int[] {a};\nint[3] {b} = {a}; //!"))
rule("vector of another length", S=("int[<4>] {a}; int[<4>] {b} = {a};", "int[<4>] {a};\nint[<2>] {b} = {a}; //!"))
rule("string to a number", S=("int {a} = 3;", 'int {a} = "3"; //!'))
rule("number to a string", S=('String {a} = "3";', "String {a} = 3; //!"))
rule("null to a number", S=("int* {a} = null;", "int {a} = null; //!"))
rule("null to a struct", S=("Pt* {a} = null;", "Pt {a} = null; //!"))
rule("float constant to a number", S=("int {a} = 3;", "int {a} = 3.5; //!"))
rule("pointer to array of another length", S=("int[3] {a}; int[3]* {b} = &{a};", "int[3] {a};\nint[2]* {b} = &{a}; //!"))
rule("function result of another type", S=("int {a} = one();", "String {a} = one(); //!"))
rule("no cast between struct types", S=("Pt {a}; int {b} = (int){a}.y;", "Pt {a};\nQt {b} = (Qt){a}; //!"))
rule("no cast from struct to number", S=("Pt {a}; long {b} = (long){a}.y;", "Pt {a};\nint {b} = (int){a}; //!"))
rule("no cast from number to struct", S=("int {a}; Pt {b};", "int {a};\nPt {b} = (Pt){a}; //!"))
rule("no cast from slice to number", S=("int[] {a}; long {b} = (long){a}.len;", "int[] {a};\nlong {b} = (long){a}; //!"))
rule("no cast between enum and pointer", S=("En {a}; int {b} = {a}.ordinal;", "En {a};\nvoid* {b} = (void*){a}; //!"))
# --- constants
for t, v in [("char", 256), ("ichar", 128), ("ichar", -129), ("short", 32768), ("ushort", 65536), ("int", 1 << 31), ("uint", 1 << 32), ("long", 1 << 63), ("char", -1)]:
    rule(f"{v} for {t}", S=(f"{t} {{a}} = {v - 1 if v > 0 else 0};", f"{t} {{a}} = {v}; //!"))
    rule(f"global {v} for {t}", D=(f"{t} {{f}} = {v - 1 if v > 0 else 0};", f"{t} {{f}} = {v}; //!"))
    rule(f"element {v} for {t}", D=(f"{t}[2] {{f}} = {{{{ 0, 1 }}}};", f"{t}[2] {{f}} = {{{{ 0, {v} }}}}; //!"))
    rule(f"argument {v} for {t}", D=(f"fn void {{f}}({t} v) {{{{}}}}", f"fn void {{f}}({t} v) {{{{}}}}"), S=(f"{{f}}(1);", f"{{f}}({v}); //!"))
    rule(f"result {v} for {t}", D=(f"fn {t} {{f}}() => 1;", f"fn {t} {{f}}() => {v}; //!"))
    rule(f"folded {v} for {t}", S=(f"{t} {{a}} = 7 - 6;", f"{t} {{a}} = {v - 1} + 1; //!" if v != 1 << 31 and v != 1 << 63 and v != 1 << 32 else f"{t} {{a}} = {v}; //!"))
rule("constant index beyond the array", S=("int[3] {a}; {a}[2] = 1;", "int[3] {a};\n{a}[3] = 1; //!"))
rule("constant index read beyond the array", S=("int[{m}] {a}; int {b} = {a}[{m} - 1];", "int[{m}] {a};\nint {b} = {a}[{m}]; //!"))
rule("negative constant index", S=("int[3] {a}; {a}[0] = 1;", "int[3] {a};\n{a}[-1] = 1; //!"))
rule("constant index from the end beyond the array", S=("int[3] {a}; {a}[^3] = 1;", "int[3] {a};\n{a}[^4] = 1; //!"))
rule("index ^0", S=("int[3] {a}; {a}[^1] = 1;", "int[3] {a};\n{a}[^0] = 1; //!"))
rule("constant vector index beyond it", S=("int[<4>] {a}; {a}[3] = 1;", "int[<4>] {a};\n{a}[4] = 1; //!"))
rule("constant range beyond the array", S=("int[4] {a}; int[] {b} = {a}[1..3];", "int[4] {a};\nint[] {b} = {a}[1..4]; //!"))
rule("constant length beyond the array", S=("int[4] {a}; int[] {b} = {a}[1:3];", "int[4] {a};\nint[] {b} = {a}[2:3]; //!"))
rule("swizzle beyond the vector", S=("int[<2>] {a}; int {b} = {a}.y;", "int[<2>] {a};\nint {b} = {a}.z; //!"))
rule("division by constant zero", S=("int {a}; int {b} = {a} / 1;", "int {a};\nint {b} = {a} / 0; //!"))
rule("remainder by constant zero", S=("int {a}; int {b} = {a} % 1;", "int {a};\nint {b} = {a} % 0; //!"))
rule("constant shift beyond the width", S=("int {a}; int {b} = {a} << 31;", "int {a};\nint {b} = {a} << 32; //!"))
rule("constant right shift beyond the width", S=("char {a}; int {b} = {a} >> 7;", "long {a};\nlong {b} = {a} >> 64; //!"))
rule("negative constant shift", S=("int {a}; int {b} = {a} << 1;", "int {a};\nint {b} = {a} << -1; //!"))
rule("bit range beyond the bitstruct", D=("bitstruct {T} : char {{ int x : 4..7; }}", "bitstruct {T} : char {{\nint x : 4..8; //!\n}}"))
rule("overlapping bits", D=("bitstruct {T} : char {{ int x : 4..7; int y : 0..3; }}", "bitstruct {T} : char {{\nint x : 3..7;\nint y : 0..3; //!\n}}"))
rule("bits wider than the member", D=("bitstruct {T} : long {{ char x : 0..7; }}", "bitstruct {T} : long {{\nchar x : 0..8; //!\n}}"))
rule("bitstruct over a float", D=("bitstruct {T} : int {{ int x : 4..7; }}", "bitstruct {T} : float {{ int x : 4..7; }} //!"))
rule("too many initializers", S=("int[3] {a} = {{ 1, 2, 3 }};", "int[3] {a} = {{ 1, 2, 3, 4 }}; //!"))
rule("too many struct initializers", S=("Pt {a} = {{ 1, 2 }};", "Pt {a} = {{ 1, 2, 3 }}; //!"))
rule("unknown designator", S=("Pt {a} = {{ .x = 1 }};", "Pt {a} = {{ .z = 1 }}; //!"))
rule("designated index beyond the array", S=("int[3] {a} = {{ [2] = 1 }};", "int[3] {a} = {{ [3] = 1 }}; //!"))
rule("two initializers for a union", S=("Un {a} = {{ .i = 1 }};", "Un {a} = {{ 1, 2 }}; //!"))
rule("negative array length", D=("int[3] {f};", "int[-3] {f}; //!"))
rule("array length from a variable", S=("int[3] {a};", "int {b} = 3;\nint[{b}] {a}; //!"))
rule("inferred length without initializer", S=("int[*] {a} = {{ 1, 2 }};", "int[*] {a}; //!"))
rule("enum with a value list of another length", D=("enum {T} : int (int p) {{ XX = 1, YY = 2 }}", "enum {T} : int (int p) {{\nXX = 1,\nYY = {{ 1, 2 }} //!\n}}"))
rule("associated value of another type", D=("enum {T} : int (int p) {{ XX = 1 }}", 'enum {T} : int (int p) {{\nXX = "s" //!\n}}'))
rule("global initialized at run time", D=("int {f} = 3 + KON;", "int {f} = one(); //!"))
rule("constant initialized at run time", D=("const int {C} = 3 + KON;", "const int {C} = one(); //!"))
rule("constant initialized from a variable", D=("const int {C} = 3 + KON;", "const int {C} = glob; //!"))
rule("constant without value", D=("const int {C} = 4;", "const int {C}; //!"))
rule("failed assertion", D=("$assert KON == 5;", '$assert KON == 6 : "{f}"; //!'))
rule("failed assertion in a function", S=("$assert Pt.sizeof == 16;", "$assert Pt.sizeof == 15; //!"))
rule("error directive", D=('', '$error "x"; //!'))
rule("run-time $if", S=("$if KON == 6: one(); $endif", "$if glob == 6: one(); $endif //!"))
rule("run-time $switch", S=("$switch KON: $case 5: one(); $default: $endswitch", "$switch glob: $case 5: one(); $default: $endswitch //!"))
rule("run-time $for bound", S=("$for var $i = 0; $i < KON; $i++: one(); $endfor", "$for var $i = 0; $i < glob; $i++: one(); $endfor //!"))
# --- control flow
rule("missing return", D=("fn int {f}(int a) {{ if (a) return 1; return 2; }}", "fn int {f}(int a) //!\n{{\nif (a) return 1;\n}}"))
rule("missing return after a loop", D=("fn int {f}(int a) {{ while (a) {{ a--; return 1; }} return 2; }}", "fn int {f}(int a) //!\n{{\nwhile (a) {{ a--; return 1; }}\n}}"))
rule("missing return in a switch", D=("fn int {f}(int a) {{ switch (a) {{ case 1: return 1; default: return 2; }} }}", "fn int {f}(int a) //!\n{{\nswitch (a) {{ case 1: return 1; case 2: return 2; }}\n}}"))
rule("missing return in an else", D=("fn int {f}(int a) {{ if (a) {{ return 1; }} else {{ return 2; }} }}", "fn int {f}(int a) //!\n{{\nif (a) {{ return 1; }} else {{ a++; }}\n}}"))
rule("missing return in a loop with break", D=("fn int {f}(int a) {{ while (true) {{ if (a) return 1; a++; }} }}", "fn int {f}(int a) //!\n{{\nwhile (true) {{ if (a) break; a++; }}\n}}"))
rule("missing return of a method", D=("fn int Pt.{f}(&self) {{ return 1; }}", "fn int Pt.{f}(&self) //!\n{{\nself.x++;\n}}"))
rule("missing return of an optional", D=("fn int? {f}(int a) {{ if (a) return OOPS?; return 1; }}", "fn int? {f}(int a) //!\n{{\nif (a) return OOPS?;\n}}"))
rule("value returned from void", D=("fn void {f}() {{ return; }}", "fn void {f}()\n{{\nreturn 1; //!\n}}"))
rule("nothing returned from int", D=("fn int {f}() {{ return 1; }}", "fn int {f}()\n{{\nreturn; //!\n}}"))
rule("string returned from int", D=("fn int {f}() {{ return 1; }}", "fn int {f}()\n{{\nreturn \"x\"; //!\n}}"))
rule("struct returned from another", D=("fn Pt {f}() {{ Pt q; return q; }}", "fn Pt {f}()\n{{\nQt q;\nreturn q; //!\n}}"))
rule("break outside a loop", S=("while (one() == 2) {{ break; }}", "break; //!"), f="l")
rule("continue outside a loop", S=("while (one() == 2) {{ continue; }}", "continue; //!"), f="l")
rule("continue in a plain switch", S=("while (one() == 2) {{ switch (glob) {{ case 1: continue; }} }}", "switch (glob)\n{{\ncase 1: continue; //!\n}}"), f="l")
rule("break to an unknown label", S=("while LA: (one() == 2) {{ break LA; }}", "while LA: (one() == 2)\n{{\nbreak LB; //!\n}}"))
rule("continue to an unknown label", S=("while LA: (one() == 2) {{ continue LA; }}", "while LA: (one() == 2)\n{{\ncontinue LB; //!\n}}"))
rule("break to the label of a finished loop", S=("while LA: (one() == 2) {{ break LA; }} while LC: (one() == 2) {{ break LC; }}", "while LA: (one() == 2) {{}}\nwhile LC: (one() == 2) {{ break LA; }} //!"))
rule("continue to the label of an if", S=("if LA: (one() == 2) {{ break LA; }}", "while (one() == 2) {{ if LA: (one() == 2)\n{{\ncontinue LA; //!\n}} }}"))
rule("nextcase outside a switch", S=("switch (glob) {{ case 1: nextcase; case 2: one(); }}", "nextcase; //!"), f="ls")
rule("nextcase after the last case", S=("switch (glob) {{ case 1: nextcase; case 2: one(); }}", "switch (glob)\n{{\ncase 1: one();\ncase 2: nextcase; //!\n}}"))
rule("nextcase default without one", S=("switch (glob) {{ case 1: nextcase default; default: one(); }}", "switch (glob)\n{{\ncase 1: nextcase default; //!\ncase 2: one();\n}}"))
rule("nextcase to a missing constant", S=("switch (glob) {{ case 1: nextcase 2; case 2: one(); }}", "switch (glob)\n{{\ncase 1: nextcase 3; //!\ncase 2: one();\n}}"))
rule("break out of defer", S=("while (one() == 2) {{ defer {{ while (one() == 2) break; }} }}", "while (one() == 2)\n{{\ndefer {{ break; }} //!\n}}"))
rule("return out of defer", S=("while (one() == 2) {{ defer {{ one(); }} }}", "defer {{ return; }} //!"), f="r")
rule("rethrow out of defer", D=("fn int? {f}() {{ defer {{ (void)opt(1); }} return 1; }}", "fn int? {f}()\n{{\ndefer {{ int a = opt(1)!; }} //!\nreturn 1;\n}}"))
for t, a, b in [("int", "3", "4"), ("char", "'a'", "'b'"), ("long", "-1", "1"), ("String", '"ab"', '"ac"'), ("Em", "DD", "EE"), ("typeid", "int.typeid", "long.typeid"), ("fault", "OOPS", "EEK"), ("bool", "true", "false")]:
    rule(f"duplicate case of {t}", S=(f"{t} {{a}} = {a}; switch ({{a}}) {{{{ case {a}: one(); case {b}: one(); }}}}", f"{t} {{a}} = {a};\nswitch ({{a}})\n{{{{\ncase {a}: one();\ncase {b}: one();\ncase {a}: one(); //!\n}}}}"))
    rule(f"case of another type than {t}", S=(f"{t} {{a}} = {a}; switch ({{a}}) {{{{ case {a}: one(); case {b}: one(); }}}}", f"{t} {{a}} = {a}; Pt {{b}};\nswitch ({{a}})\n{{{{\ncase {{b}}: one(); //!\n}}}}"))
rule("overlapping case ranges", S=("switch (glob) {{ case 1..5: one(); case 6..9: one(); }}", "switch (glob)\n{{\ncase 1..5: one();\ncase 5..9: one(); //!\n}}"))
rule("case inside a range", S=("switch (glob) {{ case 1..5: one(); case 6: one(); }}", "switch (glob)\n{{\ncase 1..5: one();\ncase 3: one(); //!\n}}"))
rule("backwards case range", S=("switch (glob) {{ case 1..5: one(); }}", "switch (glob)\n{{\ncase 5..1: one(); //!\n}}"))
rule("two defaults", S=("switch (glob) {{ case 1: one(); default: one(); }}", "switch (glob)\n{{\ndefault: one();\ncase 1: one();\ndefault: one(); //!\n}}"))
rule("case out of range of the switched type", S=("char {a}; switch ({a}) {{ case 255: one(); }}", "char {a};\nswitch ({a})\n{{\ncase 256: one(); //!\n}}"))
# --- optionals
rule("discarded optional", S=("(void)opt(1);", "opt(1); //!"))
rule("discarded void optional", S=("(void)voidopt(1);", "voidopt(1); //!"))
rule("discarded result marked @nodiscard", S=("int {a} = must();", "must(); //!"))
rule("optional to a plain variable", S=("int {a} = opt(1) ?? 2;", "int {a} = opt(1); //!"))
rule("optional assigned to a plain variable", S=("int {a}; {a} = opt(1) ?? 2;", "int {a};\n{a} = opt(1); //!"))
rule("optional variable to a plain one", S=("int? {a} = opt(1); int {b} = {a} ?? 1;", "int? {a} = opt(1);\nint {b} = {a}; //!"))
rule("optional returned as plain", D=("fn int {f}() {{ return opt(1) ?? 2; }}", "fn int {f}()\n{{\nreturn opt(1); //!\n}}"))
rule("fault returned as plain", D=("fn int? {f}() {{ return OOPS?; }}", "fn int {f}()\n{{\nreturn OOPS?; //!\n}}"))
rule("rethrow in a plain function", D=("fn int? {f}() {{ int a = opt(1)!; return a; }}", "fn int {f}()\n{{\nint a = opt(1)!; //!\nreturn a;\n}}"))
rule("discarded call with an optional argument", S=("(void)addn(opt(1));", "addn(opt(1)); //!"))
rule("call with an optional argument to a plain variable", S=("int {a} = addn(opt(1)) ?? 1;", "int {a} = addn(opt(1)); //!"))
rule("sum with an optional to a plain variable", S=("int {a} = opt(1) + 1 ?? 1;" if False else "int {a} = (opt(1) + 1) ?? 1;", "int {a} = opt(1) + 1; //!"))
rule("optional element in an initializer of a plain variable", S=("int[2]? {a} = {{ 1, 2 }};", "int[2] {a} = {{ 1, opt(1) }}; //!"))
rule("optional condition", S=("if (opt(1) ?? 0) one();", "if (opt(1)) one(); //!"))
rule("optional loop condition", S=("while ((opt(1) ?? 0) == 9) one();", "while (opt(1) == 9) one(); //!"))
rule("optional switch", S=("switch (opt(1) ?? 0) {{ case 1: one(); }}", "switch (opt(1)) {{ case 1: one(); }} //!"))
rule("optional index to a plain variable", S=("int[3] {a}; int {b} = {a}[opt(1) ?? 0];", "int[3] {a};\nint {b} = {a}[opt(1)]; //!"))
rule("try on a plain value", S=("if (try {a} = opt(1)) one();", "if (try {a} = one()) one(); //!"))
rule("catch on a plain value", S=("if (catch {a} = opt(1)) one();", "if (catch {a} = one()) one(); //!"))
rule("forced unwrap of a plain value", S=("int {a} = opt(1)!!;", "int {a} = one()!!; //!"))
rule("rethrow of a plain value", D=("fn int? {f}() {{ int a = opt(1)!; return a; }}", "fn int? {f}()\n{{\nint a = one()!; //!\nreturn a;\n}}"))
rule("fallback for a plain value", S=("int {a} = opt(1) ?? 2;", "int {a} = one() ?? 2; //!"))
rule("optional parameter", D=("fn void {f}(int a) {{}}", "fn void {f}(int? a) {{}} //!"))
rule("optional member", D=("struct {T} {{ int a; }}", "struct {T} {{\nint? a; //!\n}}"))
rule("optional global", D=("int {f};", "int? {f} = 1; //!") if False else ("int {f};", "struct {T} {{\nint?* a; //!\n}}"))
rule("fallback of another type", S=("int {a} = opt(1) ?? 2;", 'int {a} = opt(1) ?? "x"; //!'))
rule("method of an optional result discarded", D=("fn Pt? {f}() => (Pt){{}};", "fn Pt? {f}() => (Pt){{}};"), S=("int {a} = {f}().x ?? 1;", "int {a} = {f}().x; //!"))
# --- assignment
rule("assignment to a constant", S=("glob = 3;", "KON = 3; //!"))
rule("increment of a constant", S=("glob++;", "KON++; //!"))
rule("in-place addition to a constant", S=("glob += 2;", "KON += 2; //!"))
rule("assignment to an enum value", S=("En {a} = AA; {a} = BB;", "En.AA = BB; //!"))
rule("assignment to a call", S=("glob = one();", "one() = 3; //!"))
rule("assignment to a literal", S=("glob = 3;", "3 = glob; //!"))
rule("assignment to a sum", S=("glob = glob + 3;", "(glob + 3) = glob; //!"))
rule("increment of a literal", S=("glob++;", "3++; //!"))
rule("increment of a call", S=("glob++;", "one()++; //!"))
rule("address of a literal", S=("int* {a} = &glob;", "int* {a} = &3; //!"))
rule("address of a call", S=("int* {a} = &glob;", "int* {a} = &one(); //!"))
rule("assignment to a function", S=("glob = 1;", "one = null; //!"))
rule("assignment to a type", S=("glob = 1;", "int = 3; //!"))
rule("member of a constant changed", D=("const Pt {C} = {{ 1, 2 }};\nPt {f} = {{ 1, 2 }};", "const Pt {C} = {{ 1, 2 }};"), S=("{f}.x = 3;", "{C}.x = 3; //!"))
rule("element of a constant changed", D=("const int[2] {C} = {{ 1, 2 }};\nint[2] {f};", "const int[2] {C} = {{ 1, 2 }};"), S=("{f}[1] = 3;", "{C}[1] = 3; //!"))
rule("write through an in parameter", D=("<* @param [in] p *>\nfn int {f}(int* p) {{ return *p; }}", "<* @param [in] p *>\nfn int {f}(int* p)\n{{\n*p = 1; //!\nreturn 1;\n}}"))
rule("read of an out parameter", D=("<* @param [out] p *>\nfn void {f}(int* p) {{ *p = 1; }}", "<* @param [out] p *>\nfn int {f}(int* p)\n{{\nreturn *p; //!\n}}"))
# --- operators
rule("sum of structs", S=("Pt {a}; int {b} = {a}.x + {a}.x;", "Pt {a};\nPt {b} = {a} + {a}; //!"))
rule("sum of strings", S=('String {a} = "a" +++ "b";', 'String {a} = "a"; String {b} = {a};\n{a} = {a} + {b}; //!'))
rule("product of pointers", S=("int* {a}; int* {b} = {a} + 1;", "int* {a};\nint* {b} = {a} * 2; //!"))
rule("sum of pointers", S=("int* {a}; isz {b} = {a} - {a};", "int* {a};\nint* {b} = {a} + {a}; //!"))
rule("difference of unrelated pointers", S=("int* {a}; int* {b}; isz {c} = {a} - {b};", "int* {a}; long* {b};\nisz {c} = {a} - {b}; //!"))
rule("sum of number and string", S=("int {a} = 1 + 2;", 'int {a} = 1 + "2"; //!'))
rule("negated struct", S=("Pt {a}; int {b} = -{a}.x;", "Pt {a};\nPt {b} = -{a}; //!"))
rule("negated pointer", S=("int* {a}; bool {b} = !{a};", "int* {a};\nint* {b} = -{a}; //!"))
rule("complement of a float", S=("int {a}; int {b} = ~{a};", "double {a};\ndouble {b} = ~{a}; //!"))
rule("shift of a float", S=("int {a}; int {b} = {a} << 2;", "double {a};\ndouble {b} = {a} << 2; //!"))
rule("shift by a float", S=("int {a}; int {b} = {a} << 2;", "int {a};\nint {b} = {a} << 2.0; //!"))
rule("bitwise or of floats", S=("int {a}; int {b} = {a} | {a};", "double {a};\ndouble {b} = {a} | {a}; //!"))
rule("logical and of structs", S=("Pt {a}; bool {b} = {a}.x && {a}.y;", "Pt {a};\nbool {b} = {a} && {a}; //!"))
rule("not of a struct", S=("Pt {a}; bool {b} = !{a}.x;", "Pt {a};\nbool {b} = !{a}; //!"))
rule("comparison of different structs", S=("Pt {a}; Qt {b}; bool {c} = {a}.x == {b}.x;", "Pt {a}; Qt {b};\nbool {c} = {a} == {b}; //!"))
rule("order of structs", S=("Pt {a}; bool {c} = {a}.x < {a}.y;", "Pt {a};\nbool {c} = {a} < {a}; //!"))
rule("comparison of struct and number", S=("Pt {a}; bool {c} = {a}.x == 1;", "Pt {a};\nbool {c} = {a} == 1; //!"))
rule("comparison of different enums", S=("En {a}; bool {c} = {a} == BB;", "En {a}; Em {b};\nbool {c} = {a} == {b}; //!"))
rule("comparison of pointer and number", S=("int* {a}; bool {c} = {a} == null;", "int* {a}; int {b};\nbool {c} = {a} == {b}; //!"))
rule("comparison of unrelated pointers", S=("int* {a}; int* {b}; bool {c} = {a} == {b};", "int* {a}; Pt* {b};\nbool {c} = {a} == {b}; //!"))
rule("comparison of string and number", S=('String {a}; bool {c} = {a} == "1";', "String {a};\nbool {c} = {a} == 1; //!"))
rule("dereference of a number", S=("int* {a} = &glob; int {b} = *{a};", "int {a};\nint {b} = *{a}; //!"))
rule("dereference of void*", S=("int* {a} = &glob; int {b} = *{a};", "void* {a};\nint {b} = *{a}; //!"))
rule("index of a number", S=("int[2] {a}; int {b} = {a}[0];", "int {a};\nint {b} = {a}[0]; //!"))
rule("index of a struct", S=("int[2] {a}; int {b} = {a}[0];", "Pt {a};\nint {b} = {a}[0]; //!"))
rule("float index", S=("int[2] {a}; int {b} = {a}[1];", "int[2] {a};\nint {b} = {a}[1.0]; //!"))
rule("string index", S=("int[2] {a}; int {b} = {a}[1];", 'int[2] {a};\nint {b} = {a}["1"]; //!'))
rule("member of a number", S=("Pt {a}; int {b} = {a}.x;", "int {a};\nint {b} = {a}.x; //!"))
rule("member through two pointers", S=("Pt* {a} = null; int* {b} = &{a}.x;", "Pt** {a} = null;\nint* {b} = &{a}.x; //!"))
rule("struct condition", S=("Pt {a}; if ({a}.x) one();", "Pt {a};\nif ({a}) one(); //!"))
rule("struct loop condition", S=("Pt {a}; while ({a}.x) one();", "Pt {a};\nwhile ({a}) one(); //!"))
rule("void condition", S=("if (one()) one();", "if (vararg(null)) one(); //!"))
rule("void variable", S=("int {a};", "void {a}; //!"))
rule("void value", S=("int {a} = one();", "int {a} = vararg(null); //!"))
rule("void member", D=("struct {T} {{ int x; }}", "struct {T} {{\nvoid x; //!\n}}"))
rule("void parameter", D=("fn void {f}(int x) {{}}", "fn void {f}(void x) {{}} //!"))
rule("array of void", D=("int[3] {f};", "void[3] {f}; //!"))
rule("ternary of unrelated types", S=("int {a} = glob ? 1 : 2;", 'int {a} = glob ? 1 : "x"; //!'))
rule("ternary of structs", S=("Pt {a}; Pt {b} = glob ? {a} : {a};", "Pt {a}; Qt {b};\nPt {c} = glob ? {a} : {b}; //!"))
rule("switch over a struct", S=("Pt {a}; switch ({a}.x) {{ case 1: one(); }}", "Pt {a};\nswitch ({a}) {{ case 1: one(); }} //!"))
rule("foreach over a number", S=("int[2] {a}; foreach ({b} : {a}) one();", "int {a};\nforeach ({b} : {a}) one(); //!"))
rule("foreach over a struct", S=("int[2] {a}; foreach ({b} : {a}) one();", "Pt {a};\nforeach ({b} : {a}) one(); //!"))
rule("foreach element of another type", S=("int[2] {a}; foreach (int {b} : {a}) one();", "int[2] {a};\nforeach (String {b} : {a}) one(); //!"))
rule("foreach narrow element", S=("int[2] {a}; foreach (int {b} : {a}) one();", "long[2] {a};\nforeach (int {b} : {a}) one(); //!"))
rule("vectors of different lengths added", S=("int[<4>] {a}; int[<4>] {b} = {a} + {a};", "int[<4>] {a}; int[<2>] {b};\n{a} = {a} + {b}; //!"))
rule("vectors of different elements added", S=("int[<4>] {a}; int[<4>] {b} = {a} + {a};", "int[<4>] {a}; float[<4>] {b};\n{a} = {a} + {b}; //!"))
rule("arrays added", S=("int[<2>] {a}; {a} = {a} + {a};", "int[2] {a};\n{a} = {a} + {a}; //!") if False else ("int[2] {a}; int {b} = {a}[0] + {a}[1];", "Pt[2] {a};\n{a} = {a} + {a}; //!"))
rule("vector of structs", D=("int[<2>] {f};", "Pt[<2>] {f}; //!"))
rule("increment of a struct", S=("Pt {a}; {a}.x++;", "Pt {a};\n{a}++; //!"))
rule("increment of a bool", S=("int {a}; {a}++;", "bool {a};\n{a}++; //!"))
rule("in-place sum of bools", S=("int {a}; {a} += 1;", "bool {a};\n{a} += 1; //!"))
# --- types
rule("struct containing itself", D=("struct {T} {{ {T}* p; int x; }}", "struct {T} {{ //!\n{T} p; //!\nint x; }}"))
rule("structs containing each other", D=("struct {T} {{ {U}* p; }}\nstruct {U} {{ {T} q; }}", "struct {T} {{ //!\n{U} p; //!\n}} struct {U} {{ //!\n{T} q; //!\n}}"))
rule("union containing itself", D=("union {T} {{ {T}* p; int x; }}", "union {T} {{ //!\n{T} p; //!\nint x; }}"))
rule("alias of itself", D=("alias {T} = int;", "alias {T} = {T}; //!"))
rule("aliases of each other", D=("alias {T} = {U};\nalias {U} = int;", "alias {T} = {U}; //!\nalias {U} = {T}; //!"))
rule("typedef of itself", D=("typedef {T} = int;", "typedef {T} = {T}; //!"))
rule("constant from itself", D=("const int {C} = 1;", "const int {C} = {C} + 1; //!"))
rule("constants from each other", D=("const int {C} = D{C} + 1;\nconst int D{C} = 2;", "const int {C} = D{C} + 1; //!\nconst int D{C} = {C}; //!"))
rule("flexible array before the end", D=("struct {T} {{ int x; int[*] y; }}", "struct {T} {{\nint[*] y; //!\nint x;\n}}"))
rule("inline not first", D=("struct {T} {{ inline Pt p; int x; }}", "struct {T} {{\nint x;\ninline Pt p; //!\n}}") if False else ("struct {T} {{ inline Pt p; Qt x; }}", "struct {T} {{\ninline Pt p;\ninline Qt x; //!\n}}"))
rule("enum over a float", D=("enum {T} : char {{ XX }}", "enum {T} : float {{ XX }} //!"))
rule("enum over a struct", D=("enum {T} : char {{ XX }}", "enum {T} : Pt {{ XX }} //!"))
rule("method on an unknown type", D=("fn void Pt.{f}(&self) {{}}", "fn void Pz.{f}(&self) {{}} //!"))
rule("operator overload with another count", D=("fn Pt Pt.{f}(&self, int i) @operator([]) => *self;", "fn Pt Pt.{f}(&self) @operator([]) => *self; //!"))
rule("len overload returning a string", D=("fn usz Pt.{f}(&self) @operator(len) => 1;", "fn String Pt.{f}(&self) @operator(len) => \"\"; //!"))
rule("function with a main of another result", D=("", "fn String main() => \"\"; //!"), f="m")
rule("main with another parameter", D=("", "fn int main(double x) => 1; //!"), f="m")
# --- interfaces
I = "interface Face {{ fn int foo(); fn int bar(int x) @optional; }}\n"
rule("missing interface method", I, D=("struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self) @dynamic => 1;", "struct {T} (Face) {{ int x; }} //!\nfn int {T}.fooz(&self) => 1;"))
rule("interface method of another result", I, D=("struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self) @dynamic => 1;", "struct {T} (Face) {{ int x; }}\nfn long {T}.foo(&self) @dynamic => 1; //!"))
rule("interface method with another parameter", I, D=("struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self) @dynamic => 1;\nfn int {T}.bar(&self, int x) @dynamic => x;", "struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self) @dynamic => 1;\nfn int {T}.bar(&self, long x) @dynamic => 1; //!"))
rule("interface method with another count", I, D=("struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self) @dynamic => 1;", "struct {T} (Face) {{ int x; }}\nfn int {T}.foo(&self, int y) @dynamic => 1; //!"))
rule("unknown interface", D=("struct {T} {{ int x; }}", "struct {T} (Nosuch) {{ int x; }} //!"))
rule("unknown interface method called", I + "struct Imp (Face) {{ int x; }}\nfn int Imp.foo(&self) @dynamic => 1;", S=("Imp {a}; Face {b} = &{a}; {b}.foo();", "Imp {a}; Face {b} = &{a};\n{b}.baz(); //!"))
rule("interface from a type without it", I + "struct Imp (Face) {{ int x; }}\nfn int Imp.foo(&self) @dynamic => 1;", S=("Imp {a}; Face {b} = &{a};", "Pt {a};\nFace {b} = &{a}; //!"))
rule("interface from a value", I + "struct Imp (Face) {{ int x; }}\nfn int Imp.foo(&self) @dynamic => 1;", S=("Imp {a}; Face {b} = &{a};", "Imp {a};\nFace {b} = {a}; //!"))
rule("interface method called with another count", I + "struct Imp (Face) {{ int x; }}\nfn int Imp.foo(&self) @dynamic => 1;", S=("Imp {a}; Face {b} = &{a}; {b}.foo();", "Imp {a}; Face {b} = &{a};\n{b}.foo(1); //!"))
# --- contracts
C = "<* @require v > 3 *>\nfn int req(int v) => v;\n<* @param [&in] p *>\nfn int notnull(int* p) => *p;\n"
rule("constant argument against a contract", C, S=("req(4);", "req(3); //!"))
rule("null against a contract", C, S=("int {a}; notnull(&{a});", "notnull(null); //!"))
rule("contract about an unknown parameter", D=("<* @param p : `x` *>\nfn void {f}(int p) {{}}", "<*\n@param q : `x` //!\n*>\nfn void {f}(int p) {{}}"))
rule("contract with an undeclared name", D=("<* @require p > 1 *>\nfn void {f}(int p) {{}}", "<*\n@require q > 1 //!\n*>\nfn void {f}(int p) {{}}"))
# --- modules: the second module follows the first
M = "module other;\n{hid}\nmodule t @test2;\n"
for kind, decl, use in [("function", "fn int hid() {at} => 1;", "int {a} = other::hid();"), ("global", "int hid {at};", "int {a} = other::hid;"), ("constant", "const int HID {at} = 1;", "int {a} = other::HID;"),
                        ("macro", "macro hid() {at} => 1;", "int {a} = other::hid();"), ("struct", "struct Hid {at} {{ int x; }}", "Hid {a};"), ("enum", "enum Hid {at} {{ XX }}", "Hid {a};"),
                        ("alias", "alias Hid {at} = int;", "Hid {a};"), ("typedef", "typedef Hid {at} = int;", "Hid {a};"), ("union", "union Hid {at} {{ int x; }}", "Hid {a};"), ("bitstruct", "bitstruct Hid : int {at} {{ int x : 0..3; }}", "Hid {a};"),
                        ("fault", "faultdef HID {at};", "fault {a} = other::HID;"), ("interface", "interface Hid {{ fn void x(); }}", "Hid {a};")]:
    for at in ("@private", "@local"):
        if kind == "interface": continue
        # declared in module other; used in t
        R.append((f"{at} {kind} of another module", None, (decl.replace("{at}", ""), decl.replace("{at}", at)), (use, use + " //!"), "o"))
    if kind in ("function", "global", "macro"):
        R.append((f"{kind} of another module without its prefix", None, (decl.replace("{at}", ""), decl.replace("{at}", "")), (use, use.replace("other::", "") + " //!"), "o"))
    R.append((f"{kind} of a module that is not imported", None, (decl.replace("{at}", ""), decl.replace("{at}", "")), (use, use + " //!"), "on"))
# --- generics
G = "module gen {Type};\nstruct Box { Type v; }\nfn Type twice(Type t) => t + t;\n"
for name, good, bad in [("generic type without parameters", "Box{{int}} {a};", "Box {a};"), ("generic type with two parameters for one", "Box{{int}} {a};", "Box{{int, long}} {a};"),
                        ("generic function without parameters", "gen::twice{{int}}(1);", "gen::twice(1);"), ("value for a type parameter", "Box{{int}} {a};", "Box{{3}} {a};"),
                        ("generic function with a wide argument", "int {a}; gen::twice{{int}}({a});", "long {a}; gen::twice{{int}}({a});"), ("instances of different types", "Box{{int}} {a}; Box{{int}} {b} = {a};", "Box{{int}} {a}; Box{{long}} {b} = {a};")]:
    R.append((name, None, None, (good, bad + " //!"), "g"))

WORDS = "alpha beta gamma delta omega kappa lam sigma tau rho phi chi psi eta iota mu nu xi".split()
INTS = ["int", "long", "short", "char", "uint", "double", "ulong", "ichar"]


class Rules(pbt.Family):
    name = "violations"
    quick, thorough = 4000, 40000
    batch = 8
    shrinkable = False

    def gen(self, s):
        i = s.int(0, len(R) - 1)
        f = R[i][4]
        wrap = []
        for _ in range(s.weighted([(3, 0), (3, 1), (2, 2), (1, 4)])):
            ok = ["block", "if", "else"]
            if "l" not in f: ok += ["while", "for", "foreach", "do"]
            if "s" not in f and "l" not in f: ok += ["case", "default"]
            if "d" not in f and "r" not in f and "l" not in f: ok += ["defer"]
            wrap.append(s.choice(ok))
        kind = s.choice(["fn", "fn", "method", "lambda", "macro", "opt"]) if "r" not in f else "fn"
        ws = WORDS[:]
        names = []
        for _ in range(5):
            names.append(ws.pop(s.draw(len(ws) - 1)))
        t = s.draw(len(INTS) - 1)
        return {"rule": i, "name": R[i][0], "wrap": wrap, "kind": kind, "names": names, "i": INTS[t], "j": INTS[(t + 1 + s.draw(len(INTS) - 2)) % len(INTS)], "n": s.int(0, 100), "m": s.int(1, 9), "pad": s.draw(3), "other_first": s.draw(1), "after": s.draw(1)}

    def labels(self, c):
        return ["rule:" + c["name"]]

    def nt_rule(self):
        return "every case: each one is a violation and its correct twin"

    def text(self, c, bad):
        name, decl, D, S, f = R[c["rule"]]
        a, b, d, ff, g = c["names"]
        sub = dict(a=a, b=b, c=d, f=ff + "_fn", g=g + "_fn", T=ff.capitalize() + "Type", U=g.capitalize() + "Kind", C=ff.upper() + "_K", i=c["i"], j=c["j"], n=c["n"], m=c["m"])
        fill = lambda t: t.format(**sub)
        D2 = fill(D[bad]) if D else ""
        S2 = fill(S[bad]) if S else ""
        top = "module t;\n" + "".join(f"// {k}\n" for k in range(c["pad"]))
        if "g" in f: top = G + top + "import gen;\n"
        if "o" in f:
            oth = "module other;\n" + D2 + "\n"
            imp = "import other;\n" if not ("n" in f and bad) else ""
            D2 = ""
            if c["other_first"]: top = oth + top + imp
            else: top = top + imp
            tail = "" if c["other_first"] else oth
        else: tail = ""
        body = S2
        for k, w in enumerate(c["wrap"]):
            body = {"block": "{{\n{}\n}}", "if": "if (glob == 1)\n{{\n{}\n}}", "else": "if (glob == 2) {{ one(); }} else\n{{\n{}\n}}", "while": "while (glob == 3)\n{{\n{}\n}}",
                    "for": f"for (int q{k} = 0; q{k} < 2; q{k}++)\n{{{{\n{{}}\n}}}}", "foreach": f"foreach (q{k} : (int[2]){{{{ 1, 2 }}}})\n{{{{\n{{}}\n}}}}", "do": "do\n{{\n{}\n}} while (glob == 4);",
                    "case": "switch (glob)\n{{\ncase 7:\n{}\ncase 8: one();\n}}", "default": "switch (glob)\n{{\ncase 7: one();\ndefault:\n{}\n}}", "defer": "defer\n{{\n{}\n}}"}[w].format(body)
        after = "\none();" if c["after"] else ""
        if S:
            k = c["kind"]
            if k == "fn": host = f"fn void host()\n{{\n{body}{after}\n}}"
            elif k == "method": host = f"fn void Pt.host(&self)\n{{\n{body}{after}\n}}"
            elif k == "opt": host = f"fn void? host()\n{{\n{body}{after}\n}}"
            elif k == "macro": host = f"macro host()\n{{\n{body}{after}\n}}\nfn void user() {{ host(); }}"
            else: host = f"alias HostFn = fn void();\nHostFn hostfn = fn void()\n{{\n{body}{after}\n}};"
        else: host = ""
        main = "" if "m" in f and bad else "fn int main() => 0;\n"
        if "m" in f: D2 = D2 or ""
        imports = ""
        if D2.startswith("import"):
            imports, D2 = D2 + "\n", ""
        return top + imports + P + (fill(decl) if decl else "") + D2 + "\n" + host + "\n" + main + tail

    def render(self, c):
        return {"rule": c["name"], "correct": self.text(c, 0), "violation": self.text(c, 1)}

    def run(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        with c3.Tmp() as d:
            good, bad = self.text(c, 0), self.text(c, 1)
            for n, t in (("g", good), ("b", bad)):
                os.mkdir(f"{d}/{n}")
                with open(f"{d}/{n}/p.c3", "w") as f: f.write(t)
            r = c3.compile_("p.c3", f"{d}/g/out", ("-O0",), cwd=f"{d}/g", timeout=60, verb="compile-only") if False else c3.compile_(f"{d}/g/p.c3", f"{d}/g/out", ("-C",), cwd=f"{d}/g", timeout=60)
            if r.code != 0:
                return f"the correct program for '{c['name']}' is not accepted ({r.how()}): {errs(r.text)}"
            r = c3.compile_(f"{d}/b/p.c3", f"{d}/b/out", ("-O0",), cwd=f"{d}/b", timeout=60)
            if r.code < 0 or r.timeout:
                return f"the compiler {r.how()} on a violation of '{c['name']}': {r.text[-400:]}"
            made = [x for _, _, fs in os.walk(f"{d}/b") for x in fs if x != "p.c3"]
            if r.code == 0:
                return f"accepted a violation of '{c['name']}'"
            if made:
                return f"rejected a violation of '{c['name']}' but left {made}"
            lines = [i + 1 for i, l in enumerate(bad.split("\n")) if "//!" in l]
            at = [int(x) for x in re.findall(r"p\.c3:(\d+):\d+\) Error", r.text)]
            if not set(lines) & set(at):
                return f"the violation of '{c['name']}' on line {lines} is reported on line {at}: {errs(r.text)}"
        return None


def errs(t):
    m = re.findall(r"(\S+:\d+:\d+\) )?(Error: [^\n]*)", t)
    return "; ".join("".join(x)[-220:] for x in m[:3]) or t[-300:]


class C17(pbt.Check):
    id = "C17"
    rule = "every case is a violation together with its correct twin"
    assumptions = ["one violation per program; the generator covers the listed rules, not the whole grammar of mistakes"]
    families = [Rules()]


CHECK = C17()

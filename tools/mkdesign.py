"""Assemble DESIGN.md from design/head.md, the harness headers and design/tail.md."""
import json,glob,re
D = {
"C01":("RuntimeFunctions.cpp: add/sub/mul/div/mod/safe_div/bitwise `_nullable`, `_nullable_lhs/_rhs`, uminus, logical forms", "NULL rule + machine operation", 4),
"C02":("RuntimeFunctions.cpp: eq/ne/lt/gt/le/ge nullable forms, logical_and/or/not", "three-valued truth tables, mathematical order", 4),
"C03":("RuntimeFunctions.cpp: cast_X_to_Y_nullable, rounding forms", "value-preserving conversion, half away from zero", 9),
"C04":("RuntimeFunctions.cpp, decimal scaling; DecimalFloor/Ceil", "quotient/remainder definition per power of ten", 4),
"C05":("RuntimeFunctions.cpp / GroupBy agg_* families incl. skip_val, 32-bit, float, conditional and _shared forms on CPU", "SQL aggregate of the sequence computed over the list", 15),
"C06":("GroupByRuntime.cpp, RuntimeFunctions.cpp: get_group_value*, get_matching_group_value*, columnar forms, key_hash, MurmurHash", "set of (key → slot) kept by the harness; arbitrary hash function", 88),
"C07":("GroupByRuntime.cpp perfect-hash forms, fast_fixed... bins, set_matching_group_value_perfect_hash*", "slot = (key - min) / bucket, injectivity", 41),
"C08":("JoinHashTable/Runtime/HashJoinRuntime.cpp, JoinHashImpl.h, JoinColumnIterator.h, HashJoin probe functions", "multiset of matching rows from the inner column; every interleaving within the preemption bound", 48),
"C09":("HashJoinRuntime.cpp baseline builders, HashJoinKeyHandlers.h, JoinHashTableQueryRuntime.cpp probes", "as C08 for composite keys", 119),
"C10":("DecodersImpl.h, Utils/ChunkIter.cpp, ArrayOps.cpp, varlen accessors", "the element stored by the harness; byte-exact bounds of the buffers", 15),
"C11":("DataMgr/Encoder.{h,cpp}, NoneEncoder.h, FixedLengthEncoder.h, DateDaysEncoder.h, ArrayNoneEncoder.h, FixedLengthArrayNoneEncoder.h, StringNoneEncoder.*, ChunkMetadata.h", "min/max/NULL over the list of values", 130),
"C12":("Utils/ExtractFromTime.cpp", "independent calendar (`harness/cal.h`: 400-year cycles, month table)", 40),
"C13":("QueryEngine/DateTruncate.cpp", "largest unit start ≤ t from the same calendar", 150),
"C14":("QueryEngine/DateAdd.cpp, DateTruncate.cpp (DateDiff)", "calendar month arithmetic with clamping; count of complete units", 62),
"C16":("Shared/DateTimeParser.cpp", "the text is generated from symbolic fields; value from the calendar", 35),
"C17":("Shared/misc.cpp formatDate/formatHMS/formatDateTime", "digits of the fields of the calendar", 110),
"C18":("Utils/StringLike.cpp string_like*, string_ilike*, *_simple", "recursive definition of a LIKE match", 70),
"C19":("Utils/StringLike.cpp StringCompare, string_eq/ne/lt/le/gt/ge(_nullable)", "byte-wise lexicographic order", 4),
"C20":("StringDictionary/StringDictionary.{h,cpp} (class legacy::StringDictionary, all of it)", "list of distinct strings in order of first appearance kept by the harness", 120),
"C21":("DataMgr/BufferMgr/BufferMgr.cpp, Buffer.{h,cpp}, CpuBufferMgr/*, AbstractBuffer.cpp (all operations of the pool)", "the buffers the harness holds with their bytes, the pages they occupy, and the bytes of the parent level", 115),
"C24":("RuntimeFunctions.cpp / CountDistinct.h / BitmapGenerators / HyperLogLog: agg_count_distinct_bitmap*, bit_is_set, count_distinct_set_size, union, hll", "the set of values fed", 46),
"C30":("IR/Expr.cpp Constant::cast / doCast / castNumber / castTimestamp..., ExtractExpr/DateTruncExpr generate (DateTimeTranslator.cpp)", "exact conversion in quotient/remainder form, accept iff representable", 84),
"C31":("IR/Expr.{h,cpp} operator== and hash of every Expr class, IR/Datum.cpp, Type equality", "structural equality of the parts the harness built", 19),
"C36":("QueryEngine/ExpressionRange.{h,cpp} (all getExpressionRange overloads, operators, apply_simple_quals), DateTimeUtils, IR/Expr.cpp", "the value of the expression computed from a symbolic value of each column lies in the range; quotient/remainder definitions of casts and fields", 60),
}
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
out=[]
for i,(f,o,t) in D.items():
    out.append(f"### {i} {props[i]['title']}\n")
    for h in sorted(glob.glob(f"/verif/harness/{i.lower()}_*.cpp")):
        s=open(h).read()
        b=" ".join(re.findall(r'@bounds (.*)',s)); a=" ".join(re.findall(r'@assume (.*)',s))
        out.append(f"- `{h[7:]}`. Bounds: {b}." + (f" Assumed: {a}." if a else ""))
    out.append(f"- Encoded: {f}.\n- Oracle: {o}. Cost {t} s.\n")
tail=open("/verif/design/tail.md").read()
fx=[]
for l in open("/verif/known_findings.jsonl"):
    k=json.loads(l); fx.append(f"| {k['property']} | {k['commit']} | {k['text'].split(k['commit'],1)[1].strip()} |")
tail=tail.replace("@@FIXES@@","\n".join(fx)).replace("@@TOTAL@@",str(sum(v[2] for v in D.values())))
CAUGHT=json.load(open("/verif/design/caught.json"))
sd=[]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m=json.load(open(d)); i=d.split("/")[-2]
    sd.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {CAUGHT.get(i,'?')} |")
tail=tail.replace("@@SEEDS@@","\n".join(sd))
open("/verif/DESIGN.md","w").write(open("/verif/design/head.md").read()+"\n".join(out)+"\n"+tail)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json, os
P = []
STATE = {
 "decPool": ("util.go", "pool of released temporary decimals"),
 "lazyDecimal": ("const.go", "constants parsed on first use"),
 "lazyDecimal values": ("const.go", "constants parsed on first use"),
 "tiny": ("continued_frac.go", "smallest substitute for zero in continued fractions"),
 "bigPow10Tab": ("internal/arith/pow.go", "grown table of powers of ten"),
 "bigMu": ("internal/arith/pow.go", "lock around the growth of the table"),
}
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe]))
    if state: d["anchors"]["state"] = [dict(name=x, where=STATE[x][0], meaning=STATE[x][1]) for x in state]
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- decided by simulation
prop("C01", "Concurrent operations that share only operands behave as if run alone",
 "Goroutines may run any operations at the same time, each writing its own receiver and all of them sharing operands that nobody writes: every operation then yields exactly the value, conditions, error and panic it yields when it is run alone in a fresh process. No operation changes a value it was only given to read, not even temporarily, and no interleaving contains a data race.",
 ["schedules","inputs"], "for every set of concurrent operations over shared operands, every interleaving of them, and every state of the process-wide caches they start from",
 "tests run operations one at a time, and the few that run in parallel see only the interleavings that happened; an operand that is normalised in place and put back, or a cache published too early, shows up only if another goroutine looks at the right moment",
 ["big.go","context.go","big_ctx.go","util.go","const.go","internal/arith/pow.go","doc.go"],
 [("only the receiver is written","doc.go and every method in big.go / context.go / big_ctx.go"),("scratch decimals come from a pool","util.go getDec/putDec"),("process-wide caches are published under a lock or once","const.go, internal/arith/pow.go")],
 "returned value, conditions and panics of each call; the shared operands as seen by other goroutines", ["decPool","lazyDecimal","bigPow10Tab"])
prop("C02", "Reading a value never writes it",
 "Comparing, querying, formatting, marshalling, converting, decomposing a value or turning it into a database value leaves that value exactly as it was, at every instant of the call and not only at its end. So any number of such calls may run concurrently on one value, and each gives the answer it gives alone.",
 ["schedules","inputs"], "for every value, every set of concurrent reading calls on it and every interleaving of them",
 "a read that caches, normalises, rounds in place or borrows the receiver's storage gives correct answers in every sequential test; only a second reader between two of its statements can tell",
 ["big.go","format.go","decomposer.go","misc/misc.go","sql/postgres/decimal.go"],
 [("readers work on copies or on scratch storage","big.go Cmp, Float, Int, Rat, Int64, Format, MarshalText"),("Decompose hands out a copy of the coefficient","decomposer.go"),("rounding for the database","sql/postgres/decimal.go Value")],
 "the value as seen by other goroutines during the call, and the answers")
prop("C03", "Scaling by powers of ten is exact and finishes however the shared table grew",
 "Every operation that multiplies or divides by a power of ten uses exactly that power, no matter which operations, of which sizes, in which order and interleaving, made the process-wide table of powers of ten grow before or at the same time. A power that has been handed out is never changed afterwards, and every such operation finishes: no interleaving or panic leaves the table locked.",
 ["schedules","histories"], "for every history and interleaving of operations that need powers of ten of any size, starting from a cold or warm table",
 "the table grows once per process, so a test suite sees one growth order; growth by two goroutines at once, growth to sizes around the limit, or an entry damaged by one operation and used by a later one is outside what a test samples",
 ["internal/arith/pow.go","util.go","big.go","context.go"],
 [("copy-on-write table behind an atomic value, grown under a mutex","internal/arith/pow.go BigPow10, growBigTen"),("entries are shared read-only","internal/arith/arith.go MulBigPow10, util.go bigScalex, getmsd")],
 "exact results of conversions to integers, comparisons, additions and rescaling with far-apart exponents", ["bigPow10Tab","bigMu"])
prop("C04", "Built-in constants are initialised once and never change",
 "Whichever goroutine is the first to need a built-in constant such as pi, e or ln 10, and whatever operations ran before or run meanwhile, the constants that callers obtain are the true values correctly rounded to the requested precision. No operation, in particular none that writes a decimal into which a constant was stored earlier, changes what later calls obtain.",
 ["schedules","histories"], "for every history and interleaving of operations around and after the first use of each constant, at every precision",
 "tests obtain each constant a handful of times in one order; a constant that is rounded in place, shared with a caller's decimal, or read while another goroutine still initialises it goes wrong only for particular histories and interleavings",
 ["const.go","big_ctx.go","continued_frac.go"],
 [("lazy constants behind a once","const.go lazyDecimal.get"),("constants are copied into receivers","big_ctx.go Pi, E and the functions that use constants")],
 "results of Pi, E and of functions built on the constants", ["lazyDecimal values","tiny"])
prop("C05", "Recycling of temporaries is invisible",
 "Results, conditions and panics do not depend on the temporary decimals an operation happens to get: for every earlier history, and whatever the recycler hands out, withholds or drops at each request, an operation gives what it gives with brand-new temporaries. A temporary that has been released is neither read nor written any more by the operation that released it, and no value returned to a caller is one.",
 ["histories","schedules"], "for every history of operations and every choice of which released temporary each request gets back, including none",
 "what a pool returns depends on garbage collection, processor and history; in a test the pool is nearly always empty or returns the item just put, with content that happens to be harmless",
 ["util.go","big_ctx.go","binary_spliting.go","context.go"],
 [("temporaries are taken from and returned to a pool without being cleared","util.go getDec, putDec"),("functions that use temporaries","big_ctx.go, binary_spliting.go combine")],
 "value and conditions of every operation", ["decPool"])
prop("C06", "Receivers and operands may be the same variable",
 "Every operation gives the same value and conditions when its receiver is also one of its operands, or when several operands are the same variable, as when all of them are distinct variables with the same contents. Operands other than the receiver keep their contents.",
 ["histories","inputs"], "for every operation, every way its receiver and operands can coincide, every content, and every history that shaped their storage",
 "the number of combinations of operation, aliasing pattern, operand shape and storage state is far beyond the handful of aliased calls in the tests, and a receiver that is written before the operand was read for the last time often gives the right answer anyway",
 ["big.go","context.go","big_ctx.go","util.go","doc.go"],
 [("partial results must not overwrite operands still needed","context.go, big_ctx.go"),("scratch integers for aliased storage","util.go alias")],
 "value, conditions and operands after the call")
prop("C07", "A receiver's earlier contents do not influence the result",
 "The value an operation stores does not depend on what its receiver held before: a used receiver with any value, any storage and any accumulated conditions ends up with the same value as a new one with the same context. The conditions afterwards are those accumulated before together with those the operation raises on a new receiver.",
 ["histories","inputs"], "for every operation and every history of the receiver before it, including failed operations, special values and accumulated conditions",
 "tests mostly start from fresh receivers; a result that depends on left-over digits, sign, precision or sticky flags needs a particular earlier history",
 ["context.go","big_ctx.go","big.go","scan.go","util.go"],
 [("results replace all parts of the receiver","context.go, big.go"),("conditions are sticky","context.go Context.Conditions"),("functions that look at conditions mid-way","big_ctx.go Pow, context.go FMA")],
 "value and conditions after the call")
prop("C08", "Values own their storage",
 "No two decimals, and no decimal and a buffer, big integer, rational, float or string exchanged with a caller, share storage: after a value was copied, set from, converted to, marshalled to, decomposed into or read out of something, writing to either side never changes the other. The objects a caller passes in to be read are left unchanged.",
 ["histories"], "for every history of operations over a set of variables and caller-owned buffers, in any order, with buffers overwritten at any later point",
 "a shared word array stays invisible until one side is written in place in a later operation that fits into the old storage; tests do not write to their inputs after use",
 ["big.go","decomposer.go","context.go","sql/postgres/decimal.go","scan.go","util.go"],
 [("deep copies of coefficients","big.go Copy, Set, SetBigMantScale, Int; context.go Set"),("byte slices in and out","decomposer.go, big.go MarshalText / UnmarshalText")],
 "all live variables and buffers after every operation")
prop("C09", "A read failure while scanning is always reported",
 "When the source a decimal is read from fails at any point before the number is complete, with any error other than end of input, the read returns that error: it never reports success with a number assembled from part of the input or from misplaced bytes. The same holds when the source cannot take back a byte it has handed out.",
 ["fault_sequences","inputs"], "for every input text, every position at which reading or un-reading fails, and every way the source splits and delays its bytes",
 "the tests read from strings, which never fail; each position in the grammar handles its own errors, and a swallowed one turns into a silently wrong number only for the fault at exactly that byte",
 ["scan.go","big.go"],
 [("byte-at-a-time scanner with one byte of push-back","scan.go scan, scanSign, scanForm, scanMant, scanExponent, scanInfinity"),("adapter from fmt.ScanState","scan.go byteReader")],
 "error and value of reads through fmt and the Scan method")
prop("C10", "What a text is parsed to does not depend on how it arrives",
 "A text gives the same value, conditions and verdict whether it is passed as a string or a byte slice, unmarshalled, read through fmt from any reader in any chunking and with any pauses, or scanned from a database driver; the verdict is the one of the documented numeric-string grammar, for a text cut off at any byte too. A read through fmt takes one blank-delimited token and leaves the rest of the input for the next read.",
 ["inputs","fault_sequences"], "for every text, every entry point, every chunking of its bytes, and end of input at every byte",
 "tests parse complete, mostly valid texts through one entry point; the product of entry points, delivery patterns and truncation points is not sampled",
 ["scan.go","big.go","context.go","sql/postgres/decimal.go"],
 [("one scanner behind all entry points","scan.go"),("entry points","big.go SetString, Scan, UnmarshalText, UnmarshalJSON; context.go SetString; sql/postgres/decimal.go Scan")],
 "value, conditions, verdict and bytes consumed")
prop("C11", "A failed or interrupted parse leaves a usable receiver",
 "After any parse or scan that fails, because of syntax, range, a read error or end of input at any byte, the receiver is a well-formed decimal: every query on it agrees with every other, it can be formatted, compared and copied, and used as a receiver or operand in later operations, which behave as for any other decimal of that value. If the failure was a syntax error the receiver is a NaN without a stray payload.",
 ["fault_sequences","histories"], "for every earlier content of the receiver, every input text, every failure point, and every operation that follows",
 "tests look at the error and drop the receiver; the half-assembled state depends on the exact byte at which reading stopped and on what the receiver held before",
 ["scan.go","big.go"],
 [("the receiver is filled in while scanning","scan.go scan, scanMant, scanForm"),("cached length and compact form must agree with the coefficient","big.go, util.go norm")],
 "queries and operations on the receiver after the failure")
prop("C12", "Formatting survives any writer",
 "Formatting a decimal through fmt sends the writer the same bytes whatever the writer is like: one that takes bytes in small pieces, fails or stops accepting at any byte, or offers only the plain write method. With a failing writer the bytes that were accepted are a prefix of the full text, the call returns, no panic escapes, and the decimal is unchanged; the full text itself is the same on every call.",
 ["fault_sequences","inputs"], "for every value, verb and flag combination, and every byte position at which the writer fails, accepts short or pauses",
 "tests format into memory, which never fails; padding and zero filling are separate copy loops with their own counting, and what they do when a write is short is never exercised",
 ["format.go","big.go"],
 [("formatter over fmt.State with padding loops","format.go formatter, stateWrapper; big.go Format"),("zero and space readers","format.go zeroReader, spaceReader")],
 "bytes accepted by the writer, termination, the value afterwards")
prop("C13", "Continued-fraction evaluation obeys the generator protocol",
 "Evaluating a continued fraction asks for a term only after the generator has said there is one, exactly once each, never modifies the terms it is given, and works for a generator that reuses the storage of its terms or brings its own working storage. If the generator stops after any number of terms the result is the fraction cut off there to working accuracy, whatever the receiver held before; if it panics, the panic reaches the caller and later evaluations are unaffected.",
 ["fault_sequences","histories"], "for every fraction, every stopping point of the generator, every panic point, every receiver history, and terms whose storage is overwritten at the next call",
 "the in-tree generators never stop, never fail and return fresh or immutable terms in the tests' few calls; only a hostile generator shows a term kept too long, asked for twice or modified",
 ["continued_frac.go","math/math.go"],
 [("modified Lentz evaluation","continued_frac.go Lentz"),("Wallis recurrence","continued_frac.go Wallis")],
 "calls made on the generator, the result, terms after the call")
prop("C14", "Binary splitting obeys the term-function protocol",
 "Binary splitting of a series sums exactly the terms asked for, for every range and every choice of the four term functions including non-trivial denominators, and gives the same result when a term function reuses one variable for all its results, each valid only until its next call. It never modifies a returned term, and if a term function panics the panic reaches the caller and later calls are unaffected.",
 ["histories","fault_sequences"], "for every range of terms, every set of term functions with exact values, storage overwritten at the next call of the same function, and a panic at any call",
 "the only users in the tree pass immutable or trivial terms over two or three ranges; every base case of the recursion has its own hand-unrolled order of calls and multiplications",
 ["binary_spliting.go","math/math.go"],
 [("unrolled base cases for 1 to 4 terms and recursive halving","binary_spliting.go calculate"),("combination of two halves","binary_spliting.go combine")],
 "the sum returned, calls made on the term functions, terms after the call")
prop("C15", "A panic in one operation leaves nothing behind",
 "When an operation panics in the middle, because of an invalid operation in Go mode, a panicking or exiting callback, or a panicking writer or reader, every other operation, running at the time or started later in any goroutine, still finishes and gives the result it gives in a fresh process; operands are unchanged and no lock stays held. Trying the same operation again behaves like the first time.",
 ["fault_sequences","schedules"], "for every operation that can panic, every point at which it does, and every set of other operations concurrent with or following it",
 "tests recover a panic and end; what it left in shared caches, in recycled temporaries, or locked is only seen by the operations that come after or run alongside",
 ["context.go","big.go","util.go","internal/arith/pow.go","continued_frac.go","binary_spliting.go","const.go"],
 [("invalid operations panic in Go mode","big.go setNaN / context.go"),("locks and once around shared caches","internal/arith/pow.go, const.go"),("temporaries that a panic skips returning","util.go")],
 "results of concurrent and later operations")
prop("C16", "Database values survive retries, sharing and reused driver buffers",
 "Turning a decimal into a PostgreSQL value may be repeated or done concurrently and always gives the same text, which fits the limits of the type when rounding is on and is refused when it is off, and does not change the decimal. Scanning copies what it needs out of the driver's buffer, accepts exactly what it produced, and after a failed scan the wrapper can be scanned into again with the result of a new one.",
 ["fault_sequences","schedules","histories"], "for every value around and beyond the limits of the type, every sequence of retried or concurrent conversions, every scan history including failures and nil, and driver buffers overwritten at any time after the call",
 "tests convert each value once; database/sql retries on bad connections, and drivers reuse row buffers, which needs a second call or a later overwrite to show",
 ["sql/postgres/decimal.go"],
 [("limits and rounding","sql/postgres/decimal.go Value"),("driver values into decimals","sql/postgres/decimal.go Scan")],
 "texts, errors and the decimal across repeated calls")
prop("C17", "Test-vector readers deliver every case before a failure and report the failure",
 "Reading test vectors from a stream returns the same cases however the stream is chunked or delayed. If the stream fails, the cases before the failure are intact and the failure is reported: a reader never presents a truncated or failed stream as complete.",
 ["fault_sequences"], "for every vector file, every chunking, and a read error or truncation at every byte",
 "the tests read complete local files; a reader that stops silently makes the rest of a vector file disappear and every test built on it still pass",
 ["suite/suite.go","suite/parser.go","dectest/scanner.go","dectest/case.go"],
 [("line reader and error of the scanner","suite/suite.go ParseCases; dectest Scanner Scan/Err/Case")],
 "cases delivered and error returned")

# ---------------------------------------------------------------- pure functions: not applicable to this technique
def pure(id, title, statement, text, files, mech, why=None):
    prop(id, title, statement, ["inputs"], text,
         why or "an infinite input space of which the vectors sample a few thousand points", files, mech, "returned value and conditions")
pure("P01", "Basic arithmetic is correctly rounded",
 "Addition, subtraction, multiplication, division, fused multiply-add and square root return the exact mathematical result rounded to the context's precision with its rounding mode, and raise exactly the conditions the specification lists for it.",
 "for all operands, precisions, rounding modes and exponent limits", ["context.go","big.go","big_ctx.go"], [("arithmetic and rounding","context.go, util.go fix")])
pure("P02", "Elementary functions are accurate to the requested precision",
 "Exponential, logarithms, power, trigonometric and inverse trigonometric functions and hypotenuse differ from the true value by no more than the stated error at every precision and over their whole domain, with exact results where they are exact.",
 "for all arguments in the domain and all precisions", ["big_ctx.go"], [("series and continued fractions","big_ctx.go")])
pure("P03", "Comparison is a total order consistent with values",
 "Comparison agrees with the mathematical order of the values whatever their representation; total-order comparison orders all representations, including zeros, infinities and NaNs, antisymmetrically and transitively; minimum and maximum agree with it.",
 "for all pairs and triples of values", ["big.go","misc/misc.go"], [("comparison","big.go cmp, CmpTotal")])
pure("P04", "Text form is lossless",
 "Formatting a value as text and parsing that text gives the same value with the same sign, coefficient, exponent and payload, and the text follows the documented rules for scientific and plain notation.",
 "for all values", ["format.go","scan.go","big.go"], [("formatting and parsing","format.go, scan.go")])
pure("P05", "Conversions to and from machine and big numbers are exact or say so",
 "Converting to integers, floats and rationals gives the exact value when representable and otherwise reports so; converting from them is exact or correctly rounded.",
 "for all values on both sides", ["big.go"], [("conversions","big.go Int64, Uint64, Int, Float64, Float, Rat, SetRat, SetFloat")])
pure("P06", "Rounding, quantizing and reducing follow the specification",
 "Rounding to a number of digits, quantizing to an exponent, rounding to an integer, floor, ceiling and removal of trailing zeros give the value and conditions of the General Decimal Arithmetic specification.",
 "for all values and parameters", ["context.go","big_ctx.go","big.go"], [("rounding","context.go Round, Quantize, Reduce, RoundToInt; big_ctx.go Floor, Ceil")])
pure("P07", "Exponent limits produce the specified overflow, underflow and subnormal results",
 "Results beyond the exponent limits become infinity, the largest finite value, a subnormal or zero as the rounding mode prescribes, with the corresponding conditions.",
 "for all operations, operands and limits", ["util.go","context.go"], [("limits","util.go fix")])
pure("P08", "Integer division, remainder and quotient satisfy the division identity",
 "The integer quotient is truncated toward zero, the remainder has the sign of the dividend and a magnitude below that of the divisor, and quotient times divisor plus remainder is the dividend.",
 "for all operand pairs", ["context.go"], [("division","context.go QuoInt, QuoRem, Rem")])
pure("P09", "NaNs propagate and invalid operations are signalled in both modes",
 "Operations on NaNs return the right NaN with its payload, signalling NaNs raise the invalid-operation condition, and in Go mode invalid operations panic with the documented error type instead.",
 "for all operations and special operands", ["big.go","context.go"], [("NaN handling","big.go CheckNaNs, setNaN")])
pure("P10", "Decimal parts can be decomposed and composed without loss",
 "Decomposing a value into form, sign, coefficient and exponent and composing it again gives the same value, and parts that cannot be represented are refused with an error.",
 "for all values and all parts", ["decomposer.go"], [("parts","decomposer.go")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")

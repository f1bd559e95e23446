import json
I='include/bignum/impl/'
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    return d
NUM=[("descriptor","sign / NaN / infinity of a number","include/bignum/bn_type.h"),("numData","digits, least significant first","include/bignum/bn_type.h")]
WHY="The existing programs print a handful of sums, products and quotients of fixed numbers and assert nothing; "
T=I+'bn_type_impl.h'
ps=[
P("C01","Addition is exact","For any two finite numbers of the same built-in kind, whatever their signs, lengths, digits and leading zero digits, the sum (a + b and a += b) denotes exactly the integer a + b.",["inputs"],
  "all finite operands (positive, negative, zero in any representation, leading zero digits) of all seven built-in bases",WHY+"carries that ripple to a new digit or sign changes need specific digits.",
  [T,I+'bn_addition_impl.h',I+'bn_subtraction_impl.h',I+'bn_compare_impl.h'],[("operator +=, operator +",T),("abs_val_add",I+'bn_addition_impl.h'),("abs_val_sub",I+'bn_subtraction_impl.h')],NUM),
P("C02","Subtraction is exact","For any two finite numbers of the same built-in kind, whatever their signs, lengths, digits and leading zero digits, the difference (a - b and a -= b) denotes exactly the integer a - b.",["inputs"],
  "all finite operands of all seven built-in bases",WHY+"borrow chains, equal magnitudes and mixed signs are each one fixed sample or none.",
  [T,I+'bn_subtraction_impl.h',I+'bn_addition_impl.h',I+'bn_compare_impl.h'],[("operator -=, operator -",T),("abs_val_sub",I+'bn_subtraction_impl.h'),("abs_val_is_ge",I+'bn_compare_impl.h')],NUM),
P("C03","Multiplication is exact","For any two finite numbers of the same built-in kind, whatever their signs, lengths, digits and leading zero digits, the product (a * b and a *= b) denotes exactly the integer a * b.",["inputs"],
  "all finite operands of all seven built-in bases",WHY+"the product goes through a floating-point transform whose rounding must be exact for every digit pattern.",
  [T,I+'bn_multiplication_impl.h',I+'fourier_impl.h'],[("operator *=, operator *",T),("mul_strassen, mul_naive",I+'bn_multiplication_impl.h'),("fft_complex, convolute_fft",I+'fourier_impl.h')],NUM),
P("C04","Division is exact and truncates toward zero","For any finite number a and any finite non-zero number b of the same built-in kind, whatever their signs, lengths, digits and leading zero digits, the quotient (a / b and a /= b) denotes exactly a divided by b with the fraction discarded (rounded toward zero).",["inputs"],
  "all finite dividends and non-zero divisors of all seven built-in bases",WHY+"quotient digits come from a doubling search whose off-by-one cases need exact multiples and digit-boundary quotients.",
  [T,I+'bn_division_impl.h',I+'bn_compare_impl.h',I+'bn_subtraction_impl.h',I+'bn_addition_impl.h'],[("operator /=, operator /",T),("abs_val_div",I+'bn_division_impl.h')],NUM),
P("C05","Zero operands are handled in every position","Arithmetic with a zero operand (no digits or only zero digits) on either side always finishes: adding or subtracting zero keeps the other value (negated for 0 - b), multiplying by zero gives zero, zero divided by a non-zero number is zero, and dividing any finite number by a zero gives an infinity without digits whose sign is negative exactly when the operands' signs differ.",["inputs"],
  "every representation of zero on either or both sides, any finite other operand, all four operations, all built-in bases","No test ever uses a zero operand, and the zero cases used to crash or hang.",
  [T,I+'bn_division_impl.h',I+'bn_subtraction_impl.h',I+'fourier_impl.h'],[("operator /= zero-divisor test",T),("fft_complex base case",I+'fourier_impl.h'),("abs_val_sub loop bound",I+'bn_subtraction_impl.h')],NUM),
P("C06","Ordering follows numeric value","For any two non-NaN numbers of the same kind, a < b, a <= b, a > b and a >= b hold exactly when they hold for the denoted values, with -infinity below and +infinity above every finite number, equal infinities equal, leading zero digits ignored and a negative zero equal to zero; every ordering with a NaN is false.",["inputs"],
  "all pairs of finite, infinite and NaN numbers of all built-in bases","The tests print four comparisons of one pair of opposite sign per base, so magnitude order is never consulted.",
  [T,I+'bn_compare_impl.h'],[("operator <, <=, >, >=",T),("abs_val_is_gt/ge/lt/le",I+'bn_compare_impl.h')],NUM),
P("C07","Equality is numeric equality","For any two non-NaN numbers of the same kind, a == b holds exactly when both denote the same value (leading zero digits and the sign of zero do not matter, equal infinities are equal, an infinity equals no finite number), and a != b is always its negation.",["inputs"],
  "all pairs of finite and infinite numbers of all built-in bases","No test uses == or != on bignums.",[T,I+'bn_compare_impl.h'],[("operator ==, operator !=",T),("abs_val_is_eq",I+'bn_compare_impl.h')],NUM),
P("C08","Arithmetic results are canonical","Every finite result of +, -, *, / (and their assigning forms) on finite operands has only digits from 0 to base-1, no most-significant zero digit, and if it is zero it has no digits and is positive, so equal results are identical.",["inputs"],
  "all finite operands, including ones with leading zeros or negative zero, all built-in bases and operations","The tests print results only; a stray leading zero or negative zero looks the same in most output.",
  [T,I+'bn_subtraction_impl.h',I+'bn_multiplication_impl.h'],[("normalize",T)],NUM),
P("C09","NaN and infinity propagate","If either operand of an arithmetic operation is NaN the result is NaN; infinity plus or minus a finite number, and sums of like infinities, stay that infinity, infinity times or divided by a non-zero finite number is the infinity with the product sign, a finite number divided by an infinity is zero, and inf - inf, inf * 0 and inf / inf are NaN. Non-finite results have no digits.",["inputs"],
  "all pairs of descriptors with at least one non-finite operand, any digits in the finite one, all four operations","No test creates a NaN or an infinity.",[T],[("operator +=, -=, *=, /= guards",T),("isComputable",T)],NUM),
P("C10","Operands are preserved and aliasing is harmless","a op b never changes a or b, a op= b never changes a distinct b and returns a reference to a, both forms give the same number, and using the same object on both sides (a op= a, a op a) gives the same result as using an equal copy.",["inputs"],
  "all finite operands, four operations, binary and assigning forms, distinct and identical objects","Tests never look at the operands after an operation and never alias them.",
  [T,I+'bn_division_impl.h',I+'bn_addition_impl.h'],[("operator +, -, *, / and assigning forms",T)],NUM),
P("C11","Arithmetic and comparison never leave their memory or hit UB","For any operands whose digits are below the base, arithmetic, comparison, copying and construction only touch the digits the numbers own, never index a digit container out of range, divide by zero, overflow a conversion or use freed memory, release everything they allocate exactly once, and finish.",["inputs"],
  "all operands (finite, zero, aliased) of all built-in bases, all operators","The tests run without sanitizers on fixed inputs.",
  [T,I+'bn_addition_impl.h',I+'bn_subtraction_impl.h',I+'bn_division_impl.h',I+'bn_multiplication_impl.h',I+'fourier_impl.h',I+'bn_compare_impl.h'],[("index loops of the kernels",I)],NUM),
P("C12","Construction from digits","A number constructed from a sign and a digit list (most significant digit first) stores exactly these digits, least significant first, without the leading zero digits and with the given sign; an empty or all-zero list gives a number without digits, and the default constructor a positive zero.",["inputs"],
  "all digit lists up to the stated length, both signs, all built-in bases","Only a few fixed lists are constructed and never inspected.",[T],[("Bignum(bn_desc_t, initializer_list), Bignum()",T)],NUM),
P("C13","Copies are faithful and independent","Copy construction, copy assignment (including self assignment), move construction and move assignment give the target the source's descriptor and digits whatever it held before; after a copy, changing either object never changes the other.",["inputs","histories"],
  "any source and any previous target state, then any digit mutation of either object","No test inspects a copy.",[T],[("copy/move constructors and assignments",T)],NUM),
P("C14","Digit editing changes exactly the addressed digit","Index 0 is the least significant digit: push_front/pop_front insert/remove at index 0, push_back/pop_back at the highest index, push/pop at the given index, resize drops the highest digits or appends the given digit (zero by default), operator[] reads or replaces one digit, and size() and getData() reflect this; every other digit keeps its value and order and the sign is untouched.",["inputs","histories"],
  "all digit sequences, positions and inserted digits within the stated length, and sequences of edits","Only push_back and size are used, on one file.",[T],[("push_front/back, pop_front/back, push, pop, resize, operator[]",T)],NUM),
P("C15","Subscripts are checked","Reading or writing digit i of a number succeeds exactly when i is smaller than its size; otherwise the access throws the library's error code (BN_ERROR) before touching any memory and leaves the number unchanged.",["inputs"],
  "all indices (64-bit), all sizes within the bound, const and non-const access","No test uses an out-of-range index.",[T,'src/bn_except.cpp'],[("operator[] with BN_ASSERT",T),("bn_runtime_assert","src/bn_except.cpp")],NUM),
P("C16","Descriptor state and predicates","setDescriptor stores the given state and drops all digits exactly when it is NaN or an infinity (digits are kept for a sign change), getDescriptor returns it, clear() gives a positive number without digits; isPositive, isNegative, isInfinite, isNan and isComputable answer by the descriptor alone and are mutually consistent (a number is positive, negative or NaN, never two of these).",["inputs","histories"],
  "all five descriptors, any previous state and digits","setDescriptor is used with two values and the predicates never.",[T],[("setDescriptor, clear, is* predicates",T)],NUM),
P("C17","Digit-type arithmetic equals the underlying integer's","For every value of every built-in digit type, each arithmetic, bitwise, shift, increment, decrement and unary operator, in all operand orders (digit-digit, digit-integer, integer-digit) and assigning forms, gives the value the same operator gives on the wrapped unsigned integer, converted back to its width, and assigning forms update only their left operand.",["inputs"],
  "all pairs of values for which the integer operator is defined, all digit types, all operator forms","The test prints one random pair below 101 for one instantiation and checks nothing.",
  ['include/bignum/bn_int_type.h',I+'bn_int_type_impl.h'],[("BN_INT_TYPE_BINARY_OP, BN_INT_TYPE_BINARY_OP_R, unary operators",I+'bn_int_type_impl.h')]),
P("C18","Digit-type comparison and conversion equal the integer's","For every value of every built-in digit type, the six comparisons in all operand orders, construction, copy, assignment and conversion back agree with the wrapped unsigned integer; the default value is zero.",["inputs"],
  "all pairs of values, all digit types and operand orders","The test prints one random pair for one instantiation.",
  ['include/bignum/bn_int_type.h',I+'bn_int_type_impl.h'],[("BN_INT_TYPE_BOOL_OP, BN_INT_TYPE_BOOL_OP_R, constructors, assignment, conversion",I+'bn_int_type_impl.h')]),
P("C19","Stream output shows sign and digits in order","Inserting a finite number into an output stream writes '-' exactly for a negative descriptor followed by every digit as a decimal number from the most to the least significant ('0' if there are no digits); infinities print as +INF and -INF and NaN as NaN, and the number is unchanged.",["inputs"],
  "all descriptors and digit sequences within the bound, all built-in bases","The tests print but never compare output.",[T,I+'bn_int_type_impl.h'],[("operator <<",T)],NUM),
P("C20","Allocation failure is reported and contained","If memory runs out at any allocation during +, -, *, / or their assigning forms, std::bad_alloc reaches the caller with its type, the right operand is unchanged, the left operand is unchanged for the binary form and infinite without digits for the assigning form, and nothing is leaked or freed twice.",["fault_sequences","inputs"],
  "every allocation point of every operation (the failing one is chosen by a symbolic index), any finite operands within the bound","No test injects allocation failures.",[T],[("try/catch blocks of the assigning operators",T)],NUM),
P("C21","Runtime assertions report and throw as documented","A runtime assertion whose condition holds does nothing; a failed one writes its message once, to standard output for an alert and to standard error for a warning or error, and throws the error code exactly for the error severity.",["inputs"],
  "both conditions, all three severities, any message","No test triggers an assertion.",['src/bn_except.cpp','include/bignum/bn_except.h'],[("bn_runtime_assert, BN_ASSERT, BN_WARN, BN_ALERT","src/bn_except.cpp")]),
P("C22","Power-of-two helpers are exact","For every unsigned value n of 8 to 64 bits, the power-of-two test is true exactly for powers of two, and the next-power-of-two helper returns 0 for 0 and otherwise the smallest power of two not below n whenever that is representable.",["inputs"],
  "all 8-, 16-, 32- and 64-bit unsigned values","They are exercised only for a few small lengths.",[I+'fourier_impl.h'],[("isPow2, nextPow2",I+'fourier_impl.h')]),
P("C23","The debug configuration never rejects valid arithmetic","With the debug macro defined, +, -, *, /, comparisons and their assigning forms give the same results as without it and never throw for finite operands; the subtraction kernel called directly throws the underflow exception exactly when the subtrahend exceeds the minuend.",["configurations","inputs"],
  "all finite operands within the bound with BN_DEBUG defined","The tests are never built with the debug macro.",['include/bignum/bn_except.h',I+'bn_subtraction_impl.h'],[("BN_DEBUG check in abs_val_sub",I+'bn_subtraction_impl.h')],NUM),
P("C24","Both multiplication algorithms give the exact product","The transform-based and the schoolbook multiplication, called directly on two digit containers, both return digits from 0 to base-1 that denote exactly the product of the two magnitudes and leave their inputs unchanged.",["inputs"],
  "all digit containers within the bound, all built-in bases","The schoolbook algorithm is never called by any test.",[I+'bn_multiplication_impl.h',I+'fourier_impl.h'],[("mul_strassen, mul_naive",I+'bn_multiplication_impl.h')]),
P("C25","The transform computes the DFT and its inverse undoes it","For every list of complex numbers whose length is a power of two, the forward transform equals the discrete Fourier transform (negative exponent) and the inverse transform of its result returns the original list, both up to floating-point rounding; the convolution step followed by the inverse transform gives the cyclic convolution of the interleaved real and imaginary signals. The table built from two digit containers pairs their digits, padded with zeroes to the next power of two of the total number of digits.",["inputs"],
  "all bounded complex inputs for each power-of-two length up to the bound","The transform is only reached through two multiplications whose results are not checked.",[I+'fourier_impl.h'],[("fft_complex, ifft_complex, convolute_fft, create_fft_table",I+'fourier_impl.h')]),
P("C26","User-defined bases and containers work like built-in ones","For a user-defined digit type with declared limits 0..base-1 (as in the compression example, also bases that are not powers of two), and for a user-defined container offering the vector interface, addition, subtraction, multiplication, division, comparison and canonical form are exact just as for the built-in kinds.",["configurations","inputs"],
  "bases 3, 7, 100, 256 and 1000 with their own digit types, and a fixed-capacity container; all finite operands within the bound","One user-defined base is used in one fixed computation.",
  ['include/bignum/bn_type.h','include/bignum/bn_limits.h',T,I+'bn_division_impl.h',I+'bn_addition_impl.h',I+'bn_subtraction_impl.h',I+'bn_multiplication_impl.h'],[("limits_t and container_t template parameters",'include/bignum/bn_type.h')],NUM),
P("C27","Chained operations obey the laws of integer arithmetic","For any finite numbers of the same built-in kind, sequences of operations keep exact values: (a + b) - b equals a, a - b equals -(b - a), a - a is zero, (a + b) + c equals a + (b + c), a * b equals b * a, (a * b) / b equals a for non-zero b, and the remainder a - (a / b) * b is smaller in magnitude than b and zero or of a's sign.",["histories","inputs"],
  "all finite operands within the bound, each listed sequence","One chain of four operations on two fixed numbers is printed.",
  [T],[("operators feeding each other's results",T)],NUM),
P("C28","Operations depend on nothing but their operands","The result of +, -, * or / is a function of its operands' descriptors and digits alone: repeating an operation after any other use of the library (other arithmetic with other sizes, comparisons, printing, failed subscripts, failed allocations, editing, non-finite arithmetic), or into an object that held another number, was moved from or was infinite, gives the same descriptor and digits, and leaves the operands unchanged.",["histories","inputs"],
  "all operands within the bound, each kind of intervening work on two other numbers","Each test computes on a few numbers in one order and compares nothing.",
  [T,I+'fourier_impl.h',I+'bn_multiplication_impl.h',I+'bn_division_impl.h'],[("operators and the kernels and tables they use",T),("create_fft_table",I+'fourier_impl.h')],NUM),
P("C29","Digit types read and write themselves as decimal numbers","For every digit type of the library (8 to 64 bits wide), inserting a value into an output stream writes it as a decimal number, and extracting from an input stream skips blanks, reads a decimal number as a whole and stores it exactly when it fits; text that is no number or a number too large sets the stream's failure state, and what follows the number stays readable.",["inputs"],
  "all values, all texts of up to a few symbolic characters around a number","No test reads a digit or looks at a written one.",
  [I+'bn_int_type_impl.h','include/bignum/bn_int_type.h'],[("operator << and operator >> of BNIntType",I+'bn_int_type_impl.h')]),
P("C30","Numbers can be used from several threads","Arithmetic, comparison, copying, const access and printing write nothing but their own result: two threads that work on different numbers, or that only read the same ones, at the same time have no data race, and each gets what it would get alone.",["schedules","inputs"],
  "two pieces of work on shared constant operands or on separate ones, every schedule (no schedule can matter when neither writes what the other may use), all operands within the bound","No test uses a thread, and a sequential test cannot see a shared buffer or an operand that is changed for a moment.",
  [T,I+'fourier_impl.h',I+'bn_multiplication_impl.h',I+'bn_division_impl.h'],[("const operators, kernels and transforms; variables with static storage",T)],NUM),
P("C31","Running out of memory while copying or editing loses nothing","If memory runs out while a number is built from digits, copied, assigned or edited, std::bad_alloc reaches the caller, nothing is leaked, the source of a copy and the digits of an edited number are kept (a resize may have appended some), and every object involved can be assigned and used again; moving, clearing, descriptor changes and digit access never need memory.",["fault_sequences","inputs"],
  "every allocation point of every construction, copy, move and editing operation, any digits, position and descriptor within the bound","No test injects allocation failures.",
  [T],[("constructors, assignment, push, pop, resize, clear, setDescriptor",T)],NUM),
]
with open('/verif/properties.jsonl','w') as f:
    for p in ps: f.write(json.dumps(p)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in ps: jsonschema.validate(p,sch)
print(len(ps))

ALLB = "every one of the 2^32 bit patterns of every operand"
T3 = "The tests never call it with more than a value or two; signed zeros, infinities, NaN and rounding ties are not sampled."
TV = "The tests build one or two vectors per type; nothing covers extreme integers, signed zeros or NaN components, nor mixed-up component positions on unequal values."
TQ = "The tests use two or three hand-picked quaternions, mostly with equal or zero components, on which swapped indices and signs cancel."
PEN = EXH + " The polynomial identity is exact; rounding is bounded by one error term per operation, within the stated magnitudes (no overflow) and with an absolute allowance for underflow."

row("C27", "No float function panics", "No function, method or operator on floats panics, overflows an integer or divides by zero, whatever its arguments, in the checked (debug) and the release profile.",
    "every bit pattern of every argument of every float function and method, and every i32 exponent; both profiles", "The tests run ordinary arguments only; an overflow check fires on particular bit patterns.",
    ["float.rs", "float/powi.rs", "float/exp.rs"], [("wrapping and checked integer arithmetic on bit patterns", "float/*.rs")], BIT, EXH)
row("C28", "The extension trait agrees with the newtype", "Every method of the extension trait on the primitive float returns the same float as the inherent method of the float newtype.",
    ALLB, "The tests call one of the two for each function.", ["f32ext.rs", "float.rs"], [("trait methods forwarding to the newtype", "f32ext.rs")], BIT,
    EXH + " Methods whose two entry points compile to identical paths are decided without a query.")
row("C29", "Arithmetic operators", "Addition, subtraction, multiplication, division and remainder on the float newtype give the IEEE result on the wrapped floats, for every combination of newtype, primitive and reference operands and for the assigning forms. Negation flips the sign bit; sum and product fold the iterator.",
    ALLB, T3, ["float.rs"], [("operator impls", "float.rs")], UF, EXH + " The IEEE remainder and products stand as uninterpreted functions: operands and their order are decided.")
row("C30", "Comparison and ordering", "Equality and ordering of the float newtype, with itself and with the primitive, are those of IEEE floats: NaN is unordered and unequal to everything and the zeros are equal.",
    ALLB, T3, ["float.rs"], [("PartialEq and PartialOrd impls", "float.rs")], BIT, EXH)
row("C31", "Conversions, classification and constants", "Conversions of integers and floats to and from the newtype keep or round the value as the primitive conversion does; classification predicates and bit conversions agree with the primitive ones; the associated constants have their IEEE values, and the generic numeric trait forwards to the same functions.",
    "every value of every source type; every bit pattern for predicates", T3, ["float.rs"], [("From impls, const fns and the generic trait impl", "float.rs")], BIT, EXH)
row("C32", "Integer vectors", "For vectors of every integer component type, addition, subtraction, multiplication and division by a scalar, dot, cross and perpendicular products, squared magnitudes and sums of vectors give the mathematical result in every component, without panicking, whenever no step overflows. Division panics exactly on a zero divisor or the minimum over minus one. Equality compares all components.",
    "every value of every component of all 2-D and 3-D integer vector types", TV, ["vector.rs", "vector/vector2d.rs", "vector/vector3d.rs"], [("operator impls per vector type", "vector/vector2d.rs, vector/vector3d.rs")], BIT, EXH)
row("C33", "Float vectors", "Arithmetic on 2-D and 3-D float vectors acts on each component with one rounding. The dot and cross products, squared magnitudes and sums of vectors are the sums of the right components' products, each operation rounded once, in any order of addition.",
    "every bit pattern of every component", TV, ["vector/vector2d.rs", "vector/vector3d.rs"], [("operator impls and products", "vector/vector2d.rs, vector/vector3d.rs")], UF, EXH)
row("C34", "Vector components and conversions", "Indexing and access by position give the x, y and z components in that order and panic or give none beyond the last. Iteration visits them in order; conversions from and to arrays, tuples, slices and iterators keep every component in its place and panic exactly on the wrong length; the default is the zero vector.",
    "every component value of every vector type, every index up to 2^64-1, slices and iterators of 0 to 6 elements", TV, ["vector.rs", "vector/vector2d.rs", "vector/vector3d.rs"], [("index, get, iter and conversion impls", "vector/vector2d.rs, vector/vector3d.rs")], BIT, EXH)
row("C35", "Vector magnitude and distance", "The magnitude of a vector is the crate's square root of the sum of its squared components, the distance of two vectors is the crate's square root of the sum of the squared component differences, and normalising divides each component by the magnitude.",
    "every bit pattern of every component of float vectors, every value of integer ones", TV, ["vector.rs", "float/sqrt.rs"], [("default methods of the vector trait", "vector.rs")], UF, EXH)
row("C36", "Mean", "The mean of samples is their sum in iteration order divided by their number, each operation rounded once. The mean of no samples is NaN.",
    "every bit pattern of every sample; slices of 0 to 6, 17 and 300 samples", "The tests average one list.", ["statistics/mean.rs"], [("sum over count", "statistics/mean.rs")], UF, EXH + " The number of samples is bounded.")
row("C37", "Variance and standard deviation", "The variance is the sum of the squared deviations from the mean over one less than the number of samples, and the standard deviation is the crate's square root of the variance; integer sample types are converted first. It is never negative.",
    "every bit pattern of every sample; slices of 1 to 6, 17 and 300 samples (integers: 3)", "The tests use one list of ten integers.", ["statistics/variance.rs", "statistics/stddev.rs"], [("two-pass sum", "statistics/variance.rs, statistics/stddev.rs")], UF, EXH + " The number of samples is bounded.")
row("C38", "Outlier trimming", "Trimming yields, in their order and unaltered, exactly the samples whose distance from the mean, in standard deviations, is below the threshold, where mean and deviation are those of the whole slice; the default threshold is 2.",
    "every bit pattern of every sample; slices of 1 to 4 samples (thorough: 6), every integer sample type", "The tests trim one list.", ["statistics/trim.rs"], [("filter on the distance from the mean", "statistics/trim.rs")], UF, EXH + " The number of samples is bounded.")
row("C39", "Quaternion algebra", "The product of two quaternions is the Hamilton product, the dot product and the norm are the sums of component products, all within 5 units of rounding of the sum of the terms' magnitudes. Addition, subtraction, scaling, conjugation and equality are exact component operations, and the identity is (1, 0, 0, 0).",
    "every float component for the exact ones, all components of magnitude up to 2^56 for the products", TQ, ["quaternion.rs"], [("component formulas", "quaternion.rs")], PE, PEN)
row("C40", "Quaternion construction and access", "Constructors, conversions from and to arrays and tuples and the accessors keep w, x, y and z in their places. A vector becomes the quaternion with zero real part and the same components.",
    "every bit pattern of every component", TQ, ["quaternion.rs"], [("conversion impls", "quaternion.rs")], BIT, EXH)
row("C41", "Quaternion inverse, normalisation and magnitude", "The inverse is the conjugate times the crate's reciprocal of the norm, the normalised quaternion is the original times the crate's inverse square root of the norm, and the magnitude is the crate's square root of the norm. The first two panic exactly when the norm is zero.",
    "every bit pattern of every component", TQ, ["quaternion.rs", "float/inv.rs", "float/invsqrt.rs", "float/sqrt.rs"], [("scaling by a function of the norm, with an assertion", "quaternion.rs")], UF, EXH)
row("C42", "Rotation of vectors", "Rotating a vector by a quaternion gives the vector part of q v q* within 8 units of rounding of the sum of the terms' magnitudes, as a method, as an operator and for integer vectors.",
    "all components of magnitude up to 2^36, all values of 8-bit integer vectors", TQ, ["quaternion.rs"], [("expanded rotation matrix", "quaternion.rs")], PE, PEN)
row("C43", "Axis and angle", "The quaternion of an axis and an angle has the crate's cosine of half the angle as real part and the axis times the crate's sine of half the angle as vector part.",
    "every bit pattern of the axis components and the angle", TQ, ["quaternion.rs", "float/sin.rs", "float/cos.rs"], [("half-angle formula", "quaternion.rs")], UF, EXH)
row("C44", "Rotation between two vectors", "The quaternion from two vectors has a norm within 7.2% of 1 and turns the first vector into the direction of the second: the cross product of the turned vector with the second is below 0.1% of the product of the lengths in each component and their dot product is at least 0.9 of it. This includes exactly opposite vectors.",
    "the two- and one-parameter families of vector pairs the evidence lists, every float of the parameters in their ranges; directions less than about 5 degrees from opposite (but not opposite) are left out", TQ,
    ["quaternion.rs", "float/sqrt.rs", "float/invsqrt.rs"], [("half-way quaternion, perpendicular axis for opposite vectors", "quaternion.rs")], TM, BOX)
row("C45", "Euler angles", "Roll and yaw are the crate's two-argument arctangents and pitch the crate's arcsine (of an argument clamped to [-1, 1]) of the usual products of the components.",
    "every bit pattern of every component", TQ, ["quaternion.rs", "float/atan2.rs", "float/asin.rs"], [("roll, pitch and yaw formulas", "quaternion.rs")], UF, EXH)

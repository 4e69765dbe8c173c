"""The properties: text for properties.jsonl and MANIFEST.json (written by engine/gen.py)."""
SC = 'include/Scalar/'
OPS = [SC + 'BinaryOps/', SC + 'UnaryOps/', SC + 'Expression.hpp', SC + 'IVariable.hpp', 'include/CommonHeader.hpp']
N = []   # (id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], observe)


def P(pid, title, statement, over, qtext, why, files, mech, observe, bounds, state=None):
    N.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               observe_at=observe, hook_needed='COOLDIFF_SYMBOLIC (the scalar type can be replaced)'),
                  bounds=bounds))


P('C01', 'Evaluation returns the value of the written formula',
  'Evaluating a scalar expression returns exactly the mathematical value of the formula the user wrote, for every value of the variables, parameters and numbers in it inside the domain of the formula. This holds for every built-in operation, for operands of every kind (variables, parameters, numbers, named sub-expressions, inline sub-expressions), for shared sub-expressions, and independently of how the operations are nested.',
  ['inputs', 'programs'], 'all values of all leaves; all compositions of the built-in operations',
  'The tests evaluate a few formulas at a handful of numbers; each operation has separate code for every operand combination and most of those combinations are not visited at points where a wrong formula would show.',
  OPS, [('operator nodes', 'include/Scalar/BinaryOps/*.hpp, include/Scalar/UnaryOps/*.hpp: eval()'), ('entry point', 'include/Scalar/CommonFunctions.hpp: Eval')],
  ['TensorR1::Eval'],
  'every built-in operation (+,-,*,/,pow, sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh exp log sqrt, negation, ProductS, SinS, CosS) with every operand kind, alone, under a product/sum, shared twice, and handed over without an Expression; plus generated programs of 3-7 named expressions (80 quick, 240 thorough); all leaf values symbolic')

P('C02', 'Forward derivatives equal the true partial derivatives',
  'The forward-mode derivative of a scalar expression with respect to any variable equals the partial derivative of the formula with respect to that variable, for all values of the leaves at which the formula is differentiable. The result does not depend on how the formula is nested, named or shared, nor on the kinds of its operands.',
  ['inputs', 'programs'], 'all values of all leaves; all compositions; every variable',
  'The tests compare derivatives of a few formulas at a few points with stored numbers.',
  OPS, [('chain rule per node', 'include/Scalar/BinaryOps/*.hpp, UnaryOps/*.hpp: devalF()'), ('entry point', 'include/Scalar/CommonFunctions.hpp: DevalF')],
  ['TensorR1::DevalF'], 'as C01, with respect to three variables each')

P('C03', 'Reverse derivatives equal the true partial derivatives',
  'After reverse-mode precomputation of an expression, the derivative reported for every variable equals the partial derivative of the formula with respect to that variable, for all values of the leaves at which the formula is differentiable. Contributions through every path of a shared sub-expression are counted exactly once each, including when intermediate adjoints happen to be zero.',
  ['inputs', 'programs'], 'all values of all leaves, including those at which an adjoint vanishes; all compositions; every variable',
  'Reverse mode merges caches on data-dependent branches (an adjoint equal to zero is skipped); tests visit one side of those branches at a few points.',
  OPS, [('adjoint propagation', 'include/Scalar/BinaryOps/*.hpp, UnaryOps/*.hpp: traverse()'), ('entry points', 'include/Scalar/CommonFunctions.hpp: PreComp, DevalR, PreCompCache')],
  ['TensorR1::PreComp + TensorR1::DevalR', 'TensorR1::PreCompCache'],
  'as C01; up to 200 paths per case over the zero/non-zero outcomes of the library\'s comparisons, at most two zero outcomes per path (three in the thorough tier)')

P('C04', 'Symbolic derivatives evaluate to the true partial derivatives',
  'The expression returned by symbolic differentiation evaluates to the partial derivative of the formula with respect to the chosen variable, for all values of the leaves at which the formula is differentiable, at the time of the evaluation. Building it does not change the value of the expression it came from.',
  ['inputs', 'programs'], 'all values of all leaves; all compositions; every variable',
  'Symbolic derivatives have their own case distinctions per operand kind that the tests visit at few points.',
  OPS, [('symbolic chain rule', 'include/Scalar/BinaryOps/*.hpp, UnaryOps/*.hpp: symEval(), symDeval()'), ('entry point', 'include/Scalar/CommonFunctions.hpp: SymDiff')],
  ['TensorR1::SymDiff followed by Eval'], 'as C01 without the user-defined operators')

P('C05', 'Symbolic derivatives can be differentiated again in every mode',
  'A symbolic derivative is an ordinary expression: differentiating it again symbolically, in forward mode or in reverse mode gives the true second partial derivative of the original formula, for all values of the leaves at which it exists.',
  ['inputs', 'programs'], 'all values of all leaves; every operation with arbitrary (bilinear) arguments; all pairs of variables',
  'No test takes mixed second derivatives of each operation.',
  OPS, [('derivative nodes built from operator nodes', 'include/Scalar/BinaryOps/*.hpp: symDeval()')],
  ['SymDiff of SymDiff, DevalF and DevalR of SymDiff'],
  'every built-in operation with arguments a0+a1 x+a3 x^2+a4 xy and b0+b2 y+xy, coefficients symbolic; second order')

P('C06', 'Hessians are the full matrices of second derivatives',
  'The Hessian routines (reverse-mode and symbolic, for a list or a matrix of variables) return the square matrix whose entry (i,j) is the second partial derivative of the scalar expression with respect to the i-th and j-th variable, for every i and j, on and off the diagonal.',
  ['inputs', 'programs'], 'all leaf values; generated expressions; lists and matrices of 1 to 4 variables, also with independent variables',
  'No test calls the Hessian routines.',
  ['include/Matrix/CommonMatFunctions.hpp', SC + 'CommonFunctions.hpp'],
  [('HessianR, SymHessian', 'include/Matrix/CommonMatFunctions.hpp')], ['HessianR, SymHessian followed by Eval of the entries'],
  'generated expressions of 3-7 nodes, all values symbolic, lists and matrices of up to 4 variables')

P('C07', 'Gradients, Jacobians and scalar-by-matrix derivatives match entry by entry',
  'Every routine that differentiates a scalar expression with respect to a list or a matrix of variables (numeric or symbolic, forward or reverse) returns in the entry belonging to a variable the partial derivative with respect to exactly that variable, in the shape of the list or matrix, and zero for variables the expression does not depend on.',
  ['inputs', 'programs', 'configurations'], 'all leaf values; generated expressions; row, column and rectangular variable matrices; serial and parallel variants',
  'No test calls these routines with several variables of distinct partial derivatives.',
  ['include/Matrix/CommonMatFunctions.hpp', SC + 'CommonFunctions.hpp'],
  [('JacobianR, SymGradient, SymMatDiff, DevalF/DevalR by matrix', 'include/Matrix/CommonMatFunctions.hpp'), ('value-template overloads', SC + 'CommonFunctions.hpp')],
  ['JacobianR, SymGradient, SymMatDiff, DevalF(exp, Matrix<Variable>), DevalR(exp, Matrix<Variable>)'],
  'generated expressions of 3-7 nodes, all values symbolic, variable lists/matrices up to 10 entries; execution policy sequential')

P('C08', 'Results do not depend on earlier library calls',
  'Whatever evaluations, forward, reverse and symbolic derivatives and value updates of variables and parameters happened before, on this expression, its sub-expressions or expressions sharing them, the next result equals the one computed from the current values alone.',
  ['histories', 'inputs', 'programs'], 'all call histories mixing all modes and updates; all leaf values before and after each update',
  'Values and derivatives are cached in nodes and invalidated by visit flags and resets; tests make one or two calls per expression.',
  OPS + [SC + 'MetaVariable.hpp', SC + 'CommonFunctions.hpp', SC + 'Parameter.hpp', SC + 'Variable.hpp'],
  [('visit flags and resets', SC + 'MetaVariable.hpp, reset() of every node'), ('caches', 'm_cache, PreComp')],
  ['all entry points after arbitrary histories'],
  '80 (thorough: 240) generated programs of 3-6 named expressions with 9 generated calls/updates and a closing round of every mode; every update brings a fresh symbolic value; all 144 ordered pairs of the gradient, Jacobian, Hessian and by-matrix routines on one expression with value updates, a second expression and a re-assignment between them',
  [('visit flag / cache of a node', 'whether the stored value belongs to the current call', 'include/Scalar/*')])

P('C09', 'Re-assigned and recursive expressions follow their current definition',
  'After an expression variable has been assigned a new formula, it and every expression built on it evaluate and differentiate (in all modes) according to the new formula. An update of the form e = f(e, ...) uses the previous formula of e on the right hand side, any number of times.',
  ['histories', 'inputs', 'programs'], 'all sequences of assignments and calls; all leaf values',
  'The recursion rewiring happens at assignment time and interacts with caches of earlier calls; tests re-assign at most once in fixed patterns.',
  [SC + 'Expression.hpp', SC + 'IVariable.hpp', SC + 'MetaVariable.hpp'], [('assignment, recursion detection', SC + 'Expression.hpp')],
  ['all entry points after assignments'],
  '80 (thorough 240) generated histories with 3 re-assignments interleaved with calls; 80 (240) generated recursive updates (3 steps) with dependents; accumulation loops; every scalar operation applied to the expression itself (at either operand, below another operation, with numbers), fresh and after use')

P('C10', 'Derivatives with respect to unrelated variables are zero; leaves are exact',
  'Differentiating with respect to a variable that does not occur in an expression, or whose contributions cancel, gives exactly zero in every mode. Variables, parameters and numbers handed directly to the evaluation and differentiation routines behave as the constant or identity functions they are.',
  ['inputs', 'programs'], 'all leaf values; expressions with cancelled, zero-weighted and absent variables',
  'Tests rarely ask for derivatives expected to be zero.',
  OPS + [SC + 'Variable.hpp', SC + 'Parameter.hpp'], [('leaf rules', SC + 'Variable.hpp, Parameter.hpp, CommonFunctions.hpp')],
  ['Eval, DevalF, DevalR, SymDiff'], '17 shapes, all values symbolic')

P('C11', 'Copies, moves and assignments keep variable identity and values',
  'Copying, moving or assigning variables, parameters and expressions yields objects that denote the same mathematical object as the source: values agree, and derivatives with respect to the copy and the original agree. Distinct variables stay distinct even if they hold equal values, and updating one never changes the other.',
  ['inputs', 'histories'], 'all leaf values; copy/move construction and assignment of every handle type, before and after use in expressions',
  'Tests do not differentiate with respect to copies or after moves.',
  [SC + 'Variable.hpp', SC + 'Parameter.hpp', SC + 'Expression.hpp'], [('special members', SC + 'Variable.hpp, Parameter.hpp, Expression.hpp and src/Scalar')],
  ['Eval, DevalF, DevalR, SymDiff'], '20 shapes, all values symbolic; variables and their copies also handed directly to the routines', )

P('C12', 'User-defined scalar operators follow the chain rule with the given derivatives',
  'An operator the user defines by a function and its partial derivatives evaluates to that function and differentiates (forward and reverse) by the chain rule with the given partial derivatives, for operands of every kind, including asymmetric functions and repeated use.',
  ['inputs', 'programs'], 'all leaf values; operand kinds variable, expression, inline, number, parameter',
  'The tests use one symmetric custom operator at fixed numbers.',
  [SC + 'BinaryOps/GenericCustomBinary.hpp', SC + 'UnaryOps/'], [('generic nodes', 'include/Scalar/BinaryOps, UnaryOps: Generic*'), ('macros', 'include/CommonHeader.hpp: UNARY_SCALAR_OPERATOR, BINARY_SCALAR_OPERATOR')],
  ['Eval, DevalF, DevalR'], 'two asymmetric binary and two unary operators, all operand kinds, alone, nested and shared; 28 histories of updates and calls with named operands; all values symbolic')

P('C13', 'Plain numbers mix correctly with expressions, and real with complex numbers',
  'Integer, floating-point and library numbers used as operands on either side of an operation stand for their mathematical value, in evaluation and in every derivative, in real and in complex mode. In complex mode, arithmetic and comparison between real and complex numbers is the mathematical one.',
  ['inputs', 'configurations'], 'all leaf values; every operation with a number on either side; both scalar configurations',
  'The conversion helpers are only compiled in complex mode and each test uses a few literals.',
  ['include/CommonHeader.hpp'] + OPS, [('number wrapping and mixed operators', 'include/CommonHeader.hpp, include/Scalar/IVariable.hpp')],
  ['Eval, DevalF, DevalR, SymDiff; operators on std::complex and real'], '27 operations with literals (also 0 and 1), real and complex builds; 8 mixed arithmetic and 4 comparison operators; all values symbolic')

P('C14', 'All scalar guarantees hold in complex mode',
  'Built for complex numbers, evaluation and forward, reverse and symbolic differentiation of every analytic operation agree with complex arithmetic and the complex derivative, for all complex leaf values in the domain.',
  ['inputs', 'programs', 'configurations'], 'all complex leaf values; compositions and call histories as in C01-C04, C08, C09',
  'The tests of complex mode compare a few numbers, mostly with zero imaginary part.',
  OPS, [('type switch', 'include/CommonHeader.hpp: USE_COMPLEX_MATH')], ['Eval, DevalF, DevalR, SymDiff'],
  'operations + - * / integer pow, sin cos tan sinh cosh tanh exp, negation, ProductS on all operand kinds; 40 (240) generated programs with histories; real and imaginary parts symbolic; log/sqrt/inverse functions (branch cuts) outside')

MX = 'include/Matrix/'
MB, MU = MX + 'BinaryOps/', MX + 'UnaryOps/'
MH = MX + 'MatrixHandler/'
MFN = MX + 'UnaryFunctions.hpp'
MOPS = [MB, MU, MH, MX + 'Matrix.hpp', MX + 'IMatrix.hpp', MX + 'CommonMatFunctions.hpp']
KIND = 'operands: matrices of variables, of numbers, named and inline sub-expressions, both operands the same object; alone, handed over without a name, nested under product/Hadamard product/difference, and shared; all entries symbolic; shapes up to 3x3 in all contexts, and 1x1, 1x5, 5x1, 4x3, 2x6, 4x4 on their own'

P('C20', 'Matrix operators evaluate to their linear-algebra definition',
  'Evaluating an expression built from matrix addition, subtraction, product, element-wise product, transposition and scaling or shifting by a number gives, in every entry, the value defined by linear algebra, for all entries and all conforming shapes, whatever the operands are (variables, numbers, named or inline sub-expressions, the same object twice) and however the expression is nested or shared.',
  ['inputs', 'programs', 'configurations'], 'all entries; conforming shapes; operand kinds; nestings',
  'The tests evaluate a few products at fixed numbers, mostly square; each operand combination has its own node class and handler path.',
  MOPS, [('operator nodes', MB + '*.hpp, ' + MU + '*.hpp: eval()'), ('arithmetic', MH + '*/Eigen, */NaiveCPU')], ['TensorR2::Eval'], KIND + '; Eigen backend (naive: C21)')
P('C21', 'Both CPU backends compute the same mathematics',
  'Selecting the naive or the Eigen CPU backend changes no result: the values, forward derivatives and reverse derivatives of every supported matrix expression computed with the naive handler are the mathematically defined ones, exactly as with the Eigen handler.',
  ['inputs', 'programs', 'configurations'], 'all entries; both backends; all operations the naive backend offers',
  'The tests run with one backend; the naive handler has its own loops for each operation.',
  [MH], [('naive handler', MH + '*/NaiveCPU/*.hpp')], ['setCPUHandler(NAIVE) followed by Eval, DevalF, PreComp/DevalR'], KIND + '; naive backend: all linear algebra, scalar-matrix, element-wise and aggregation operations in all modes (det, inverse: not offered by the naive backend; convolution: C28, C29)')
P('C22', 'Forward matrix derivatives have the documented block layout and true entries',
  'The forward derivative of a matrix expression F by a matrix X of variables is the block matrix whose block (i,j), of the size of X, holds at (p,q) the partial derivative of F(i,j) by X(p,q). This holds for every linear-algebra operator, every operand kind and shape, also for X on which F does not depend (all zero), row and column vectors included.',
  ['inputs', 'programs'], 'all entries; conforming rectangular shapes; three differentiation matrices of different shapes',
  'The layout is produced by Kronecker products and index shuffles per operator; tests compare a few square cases.',
  MOPS, [('product, Hadamard, transpose, scaling rules', MB + '*.hpp, ' + MU + '*.hpp: devalF()'), ('Kronecker and derivative transposition', MH)], ['TensorR2::DevalF'], KIND + '; derivatives by two operand matrices and an unrelated 1x2 matrix')
P('C23', 'Reverse matrix gradients equal the true gradients',
  'After reverse-mode precomputation of a scalar-valued (1x1) matrix expression, the derivative reported for a matrix of variables has the shape of this matrix and holds in each entry the partial derivative of the expression by that entry; all paths through repeated operands count exactly once; for an unrelated matrix it is the zero matrix of its shape.',
  ['inputs', 'programs'], 'all entries; conforming shapes; weighted, bilinear and repeated uses',
  'Adjoints are accumulated per node through pointers and transposed products; tests check a few gradients of fixed numbers.',
  MOPS, [('adjoint propagation', MB + '*.hpp, ' + MU + '*.hpp: traverse()'), ('entry points', MX + 'CommonMatFunctions.hpp: PreComp, DevalR')], ['TensorR2::PreComp + TensorR2::DevalR'], KIND + '; the operation inside a weighted sum, used twice, and in a bilinear form squared')
P('C25', 'Transposition, vectorisation, broadcasting and concatenation move entries with their derivatives',
  'Transposing, vectorising, broadcasting and concatenating move every entry to its defined position, in values, in forward derivative blocks and in reverse gradients, for rectangular shapes and every operand kind.',
  ['inputs', 'programs'], 'all entries; rectangular shapes; operand kinds',
  'Index shuffles go wrong only for particular (non-square) shapes; tests use few.',
  MOPS, [('vec, transpose, broadcast, concat', MU + 'GenericMatVec.hpp, GenericMatTranspose.hpp; ' + MFN)], ['Eval, DevalF, PreComp/DevalR of transpose, vec, broadcast, concat'], KIND)
P('C26', 'Determinant, inverse and matrix division and their derivatives',
  'det(A), inv(A) and A % B (A times the inverse of B) and their forward and reverse derivatives are the mathematical ones for all invertible matrices, for every operand kind.',
  ['inputs', 'programs'], 'all entries with nonzero determinant; operand kinds',
  'The derivative formulas combine the inverse, transposes and the determinant; tests check one matrix each.',
  MOPS, [('determinant, inverse nodes', MU + 'GenericMatDet.hpp, GenericMatInv.hpp')], ['Eval, DevalF, PreComp/DevalR of det, inv, %'], '2x2 matrices (Eigen backend), all entries symbolic; contexts: alone, direct, nested under a product, weighted sum (reverse); 1x1 matrices; determinant of 3x3 matrices of variables')
P('C27', 'Element-wise functions of matrices and their derivatives',
  'SinM, CosM, ExpM, LogM, SqrtM, AbsM, TanhM, SigmoidM, ReLUM, LeakyReLUM, SoftMax (all, row, column) and element-wise division evaluate to the function of each entry and differentiate (forward blocks and reverse gradients) by its true derivative, for all entries in the domain where the function is differentiable.',
  ['inputs', 'programs'], 'all entries (negative and positive) in the domain; operand kinds',
  'Each function comes with a hand-written derivative; a wrong constant or a wrong branch shows only at particular signs or scales.',
  MOPS, [('elementwise functions', MFN), ('custom unary node', MU + 'GenericMatUnary.hpp')], ['Eval, DevalF, PreComp/DevalR'], KIND + '; shapes up to 2x2/2x3')
P('C28', 'Convolution evaluates to its definition',
  'conv(A, K, strides, paddings) evaluates to the discrete cross-correlation with zero padding for all entries, strides and paddings, on both backends, whichever convolutions of other shapes were computed before.',
  ['inputs', 'histories', 'configurations'], 'all entries; strides and paddings; histories of convolutions with different shapes; both backends',
  'Padding buffers are pooled and reused between convolutions; tests compute isolated ones.',
  [MB + 'GenericMatConv.hpp', MH + 'MatrixConvolution/'], [('convolution', MH + 'MatrixConvolution/*/MatConv*Handler.hpp'), ('padding', MX + 'MatrixInterface/MatrixUtils.ipp: pad')], ['Eval'], 'six shape/stride/padding combinations up to 4x4 by 2x2, operand kinds and contexts of C20, three histories; ten more on their own (up to 5x5 by 3x3, strides up to 3, paddings up to 2, rows, columns, 1x1 kernels, kernels of full size); Eigen and naive backend')
P('C29', 'Convolution derivatives equal the true derivatives',
  'Forward derivative blocks and reverse gradients of a convolution with respect to the image and the kernel are the true partial derivatives for all strides and paddings, for every operand kind, when both operands are the same matrix, and after earlier convolutions of other shapes.',
  ['inputs', 'histories', 'configurations'], 'all entries; strides and paddings; operand kinds; histories',
  'The tests of convolution derivatives use one stride/padding at fixed numbers.',
  [MB + 'GenericMatConv.hpp', MH + 'MatrixConvolution/'], [('derivative convolution', MH + 'MatrixConvolution/NaiveCPU/MatDervConvNaiveHandler.hpp'), ('adjoint', MB + 'GenericMatConv.hpp: traverse()')], ['DevalF, PreComp/DevalR'], 'as C28')
P('C30', 'Sums, traces, norms, matrix powers and series',
  'Sigma (all, row, column), trace, Frobenius norm, integer matrix powers and the truncated exponential and logarithm series evaluate to their definition and differentiate, forward and reverse, to their true derivatives.',
  ['inputs', 'programs'], 'all entries; operand kinds; rectangular shapes for the sums',
  'The helpers are compositions of constant matrices and products, with transposed variants per axis; tests check few.',
  MOPS, [('aggregations', MFN + ', ' + MH + 'MatrixTrace: Sigma, trace, MatrixFrobeniusNorm, pow<N>, MatrixExp, MatrixLog')], ['Eval, DevalF, PreComp/DevalR'], KIND + '; powers 0,1,3; series of order 3')
P('C38', 'Scalar expressions combine with matrix expressions',
  'Scaling, shifting and dividing matrix expressions by scalar variables, parameters and (named or inline) scalar expressions evaluates and differentiates correctly, with respect to the matrix and with respect to the scalar variables, forward and reverse, also when a scalar expression is used at several places or depends on entries of the matrix.',
  ['inputs', 'programs'], 'all entries and scalars; all five operations on both sides; scalar kinds',
  'Scalar and matrix tapes meet only in these nodes; the tests differentiate by the matrix only.',
  MOPS, [('scalar-matrix nodes', MB + 'GenericMatProduct.hpp, GenericMatSum.hpp: GenericMatScalar*')], ['Eval, DevalF, PreComp/DevalR by matrix and by scalar'], KIND + '; q*A, A*q, q+A, A+q, A-q, q-A, A/q with q a variable, a parameter, an inline and a named expression')
P('C40', 'Matrix guarantees hold in complex mode',
  'Built for complex numbers, matrix expressions evaluate and differentiate (forward and reverse) to the complex-analytic results: transposition does not conjugate, products and gradients use the plain bilinear product, for all real and imaginary parts, on both backends.',
  ['inputs', 'programs', 'configurations'], 'all complex entries; both backends',
  'Complex tests use entries with few imaginary parts and one backend.',
  MOPS, [('type switch', 'include/CommonHeader.hpp: USE_COMPLEX_MATH'), ('transposition', MH)], ['Eval, DevalF, PreComp/DevalR'], KIND + '; operations + * ^ transpose (both backends), scalar product, sums, powers (Eigen)')

P('C24', 'Naming a scalar-valued sub-expression changes nothing',
  'Giving a name to a scalar-valued (1x1) matrix expression and using the name once, twice, together with other named ones or several levels deep, inside any operation, yields the same value, forward derivative and reverse gradient as writing the expression in place; using it in a larger expression does not change what the named expression itself reports.',
  ['inputs', 'programs'], 'all entries; every operation with named operands on either side; chains of named expressions',
  'A named operand switches every operator node to different template branches (own caches, copies of gradients); the tests use named operands in a few operations.',
  MOPS, [('gradient caches of named operands', MB + '*.hpp, ' + MU + '*.hpp: traverse(), m_cache'), ('handle', MX + 'MatrixInterface/MatrixVirtuals.ipp')],
  ['Eval, DevalF, PreComp/DevalR'], '14 operations (+ - * ^ transpose vec scalar-* scalar-+ SinM ExpM Sigma trace conv % det /) with two named 1x1 operands over 1x2 and 2x1 matrices: both named, same twice, named with inline on either side, weighted twice, chains of three; all entries symbolic; all three modes; Eigen backend')
P('C31', 'The matrix arithmetic functions compute their result wherever it is stored',
  'The arithmetic functions on number matrices (addition, subtraction, product, element-wise and Kronecker product, scalar addition and product, transposition, derivative transposition, trace, determinant, inverse, element-wise function) write the mathematically defined result, whether the result matrix is absent, reused with old contents, of another shape or of another size, and, for element-wise functions, when it is one of the operands; operands which are not the result stay as they are. This holds on both CPU backends.',
  ['inputs', 'histories', 'configurations'], 'all entries and all stale contents; result states; shapes; both backends',
  'The tests reach these functions only through expressions, with fresh results.',
  [MH, 'src/Matrix/MatOperators.cpp', 'include/MemoryManager.hpp'], [('handlers', MH + '*/Eigen, */NaiveCPU'), ('result pool', 'include/MemoryManager.hpp: MatrixPool')],
  ['TensorR2::MatOperators::*'], 'shapes up to 4x4 (Kronecker up to 3x3 by 2x2, det 3x3, inverse 2x2); entries and stale contents symbolic; Eigen and naive backend')
P('C32', 'Element, row, column and block access',
  'Reading and writing matrix elements by row and column or by position, taking rows, columns and blocks, replacing blocks, padding with zeros, reshaping, copying from matrices or memory, viewing external memory, and the constant zero, one and identity matrices give exactly the defined entries and leave all others alone, for all rectangular shapes and positions.',
  ['inputs', 'programs'], 'all entries; shapes up to 4x4; all rows, columns and blocks; padding up to 2',
  'No test takes columns or blocks of rectangular matrices.',
  [MX + 'MatrixInterface/', 'src/Matrix/MatrixBasics.cpp'], [('accessors', MX + 'MatrixInterface/MatrixAccessors.ipp, MatrixUtils.ipp'), ('constant matrices', 'src/Matrix/MatrixBasics.cpp')],
  ['operator(), operator[], getRow, getColumn, getBlockMat, setBlockMat, pad, reshape, copyData, getRowPtr, setMatrixPtr, Eye/Zeros/Ones'], 'ten shapes up to 4x4, all positions and blocks, padding 0..2; entries and stale contents symbolic')
P('C33', 'Matrix results do not depend on what was computed before',
  'At any point of any history of evaluations, forward derivatives by different matrices, reverse sweeps and updates of entries, scalars, parameters and constant matrices, over matrix expressions that share sub-expressions, every reported value and derivative is the one of the current values; shared constant matrices are never altered.',
  ['inputs', 'programs', 'histories'], 'all entries before and after each update; generated expressions and histories; both backends',
  'Results and gradients are cached in nodes and pooled matrices and reset by flags; staleness shows only after particular sequences of calls.',
  MOPS + ['include/MemoryManager.hpp', 'src/Matrix/MetaMatrix.cpp'], [('cache flags and reset', MX + 'IMatrix.hpp, ' + MX + 'MatrixInterface/: m_eval, m_devalf, m_visited, reset()'), ('gradient caches', MB + '*.hpp: m_cache, m_cache_v, m_cloned'), ('pooled results', 'include/MemoryManager.hpp')],
  ['Eval, DevalF, PreComp/DevalR'], 'generated programs of 3-5 named matrix expressions (13 operations; a second family over 23 operations) or 2-3 named scalar expressions, histories of 6 calls/updates - in the second family also re-definitions of nodes others are built on - followed by a full sweep, 480 programs per backend (thorough: 2400); every update brings fresh symbolic values; Eigen and naive backend')
P('C35', 'Copies and moves of matrices denote the same mathematical object',
  'Copying, moving or assigning matrices of variables or numbers, matrix expressions and unnamed expression nodes (also out of functions, into containers and tuples, before or after they were used) gives objects with the same value and derivatives as the source; number matrices are independent copies; a moved-from handle can be assigned again.',
  ['inputs', 'histories'], 'all entries; every handle type; before and after evaluation',
  'Handles carry cached results, flags and identities; tests rarely copy.',
  [MX + 'Matrix.hpp', MX + 'MatrixInterface/MatrixConstructors.ipp'], [('special members', MX + 'MatrixInterface/MatrixConstructors.ipp'), ('node copies', MB + '*.hpp, ' + MU + '*.hpp: cloneExp()')],
  ['Eval, DevalF, PreComp/DevalR'], '13 histories of copies and moves, all entries symbolic, 2x2 matrices')
P('C36', 'Re-assigned and recursively updated matrix expressions follow their current definition',
  'After re-assigning a matrix expression, also to another shape, it follows the new definition - and so does everything built on it, provided it keeps the shape the others were built for - and former operands are unaffected. A definition that uses the previous value of the same expression (e = f(e), on either side of any operation, in loops, with changing shape) has the value and derivatives of the substituted formula, and its shape is known at once, whether or not it was evaluated in between.',
  ['inputs', 'histories'], 'all entries; all operations; sequences of re-assignments',
  'Only a short recursion with fixed numbers is tested.',
  [MX + 'Matrix.hpp', MX + 'MatrixInterface/MatrixVirtuals.ipp'] + MOPS[:2], [('assignment, findMe, list of definitions', MX + 'Matrix.hpp: operator=, m_gh_vec')],
  ['Eval, DevalF, PreComp/DevalR'], '18 histories of up to 7 (re-)assignments covering every operation; reverse mode for scalar-valued recursions; 924 (thorough: 3368) generated recursions of 2-3 updates out of 13 shape-changing operations, evaluated in between or only at the end; all entries symbolic')
P('C37', 'Matrices of expressions and parameters, views and in-place updates',
  'A matrix whose entries are scalar expressions evaluates and differentiates (forward) entry by entry, inside larger matrix expressions as well, and follows later changes of its entries; parameters in matrices act as constants with updatable values; a matrix over part of another one\'s variables, or over external number buffers that are switched, refers to exactly those; number matrices that are updated in place from gradients are seen with their new values.',
  ['inputs', 'histories'], 'all entries; generated updates; views of rows, parts and permutations of variables',
  'These usages appear in the examples but not in the tests.',
  [MX + 'MatrixInterface/MatrixUtils.ipp', MX + 'Matrix.hpp', 'example/'], [('entries', MX + 'MatrixInterface/MatrixUtils.ipp: setEval, setDevalF'), ('usage', 'example/GaussNewton, example/NeuralNet')],
  ['Eval, DevalF, PreComp/DevalR, MatOperators'], '10 histories modelled on the Gauss-Newton and neural-network examples, all entries symbolic, matrices up to 4x2')
P('C34', 'Random initialisation follows the distribution asked for',
  'Filling a matrix with random values draws every entry, once, from the distribution given with that call: parameters of earlier calls have no influence, and other matrices are left alone.',
  ['inputs', 'histories'], 'all distribution parameters; sequences of fills',
  'No test fills matrices.',
  [MX + 'Matrix.hpp'], [('FillRandomValues', MX + 'Matrix.hpp: Details::FillRandomValues')], ['TensorR2::Details::FillRandomValues'],
  'two fills in sequence for class and template distributions which return their own (symbolic) parameters; shapes 2x2 and 1x3')
P('C39', 'Gauss-Newton steps solve the normal equations',
  'Every iteration of the shipped Gauss-Newton solver changes the variables by the solution of the normal equations of the residuals at the current variables, summed over all data rows; it leaves the data alone, moves views of the variables along, and the residuals, Jacobians and Hessians its oracles report are the true ones, whenever the normal matrix is positive definite.',
  ['inputs', 'histories'], 'all start values, data and parameters; scalar, system, over-determined and data-fitting problems',
  'The example runs from one start on one data set.',
  ['example/GaussNewton/', MX, 'include/Scalar/'], [('solver', 'example/GaussNewton/src/GaussNewton.cpp'), ('oracles', 'example/GaussNewton/src/OracleScalar.cpp, OracleMatrix.cpp')], ['GaussNewton::solve, Oracle::eval/evalMat/jacobian/hessian'],
  '11 problems, up to 4 unknowns, 3 residuals or 3 data rows, 1-2 iterations; start values and (for most) data symbolic; leading minors of the normal matrix assumed positive; Eigen LLT executed symbolically; real numbers')
P('C41', 'Neural-network training performs mini-batch gradient descent',
  'Training with the shipped neural-network classes changes every weight and bias, batch by batch and epoch by epoch, by the learning rate over the batch size times the true gradient of the objective on the rows of that batch (the last batch moved back to fit), with the drawn dropout masks scaled by the keep probability; the data stay as they are and nothing of earlier steps is left in later ones.',
  ['inputs', 'histories'], 'all weights, biases, data, learning rates and dropout draws; batch sizes, epochs',
  'The example needs a data set that is not shipped; no test trains a network.',
  ['example/NeuralNet/', MX], [('training loop', 'example/NeuralNet/include/NeuralNet.hpp: train'), ('layers', 'example/NeuralNet/include/Layer.hpp, src/Layer.cpp')], ['NeuralNet::train'],
  '11 networks of 1-2 layers, up to 3 inputs, 2 outputs, 3 rows, batches of 1-2, up to 2 epochs; weights, biases, learning rate, dropout draws (and most data) symbolic; no threads; CPU memory in place of the pinned (CUDA) memory the example asks for; real numbers')
P('C42', 'Results of the parallel build do not depend on the schedule',
  'With the option for parallel execution of standard algorithms switched on, values, derivatives, matrix primitives, accessors, copies and random fills are the ones of the sequential library, in whatever order, and however interleaved, the iterations of the parallel loops run.',
  ['schedules', 'inputs'], 'every order of the iterations up to one reversal or rotation, every single preemption at a conflicting access; all entries',
  'The tests are built without the option, and a test run sees one schedule.',
  [MX + 'MatrixHandler/', MX + 'MatrixInterface/', MX, 'include/CommonHeader.hpp'], [('option', 'CMakeLists.txt: ENABLE_STL_PARALLEL_EXECUTION; include/CommonHeader.hpp: EXECUTION_PAR'), ('parallel loops', MX + 'MatrixHandler/*/NaiveCPU, ' + MX + 'MatrixInterface/*.ipp, ' + MX + 'CommonMatFunctions.hpp')], ['MatOperators, Eval, DevalF, DevalR, Jacobian by matrix'],
  'primitives with both result states, matrix algebra in all modes with the naive backend, accessors, convolution, random fill; per case: the sequential, the reversed and a rotated order, plus every preemption (iteration i interrupted at an access by a whole iteration j) at the accesses for which two iterations were seen to conflict; loops over non-random-access ranges run sequentially, as in libstdc++; conflicts on data which are not numbers are outside; real numbers')

P('C43', 'Results of the build with flat hash maps are the same',
  'The build options use flat hash maps for the gradient caches and registries by default. With them, where every insertion may move all elements (no reference or iterator survives it) and the order of iteration is arbitrary, reverse-mode derivatives, Hessians, Jacobians, matrix gradients and all histories of them are the ones of the build with node-based maps.',
  ['histories', 'inputs', 'configurations'], 'all leaf values; generated expressions and histories; elements moved by every insertion',
  'The tests are built with std::unordered_map, whose references stay valid: a reference kept across an insertion works there by luck of the container.',
  [SC, MX, 'include/CommonHeader.hpp', 'src/'], [('option', 'CMakeLists.txt: ENABLE_ROBIN_HOOD_MAP; include/CommonHeader.hpp: OMPair, OMMatPair, UnOrderedMap'), ('users', SC + 'BinaryOps/*.hpp, ' + SC + 'UnaryOps/*.hpp, ' + MB + '*.hpp, ' + MU + '*.hpp: traverse(); src/Matrix/MatrixBasics.cpp, src/Matrix/CommonMatFunctions.cpp')],
  ['PreComp + DevalR, Hessian, Jacobian, Eval, DevalF'], 'robin_hood is not installed here: a stand-in with its interface which moves and spoils all elements on every insertion and iterates in reverse order of insertion; scalar programs and histories of C08, derivative tables of C06/C07, reverse mode of scalar sums/products/custom/unary operations, matrix products and named expressions, histories of C33, recursions of C36')

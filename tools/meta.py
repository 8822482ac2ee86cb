"""Writes properties.jsonl and MANIFEST.json from one table: /opt/venv/bin/python tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_DEFAULT = ('symbolic execution of the real components (concolic numpy), obligations decided by '
             'z3 over all real inputs')
NOTE = ('Exhaustive over all real values for every enumerated program within the stated bounds; '
        'assumes real arithmetic (no rounding) and trusts OpenMDAO, numpy\'s shape machinery and '
        'z3. Every case is also run concretely against the real code (conformance).')

# id, title, statement, over, quantifier text, why tests can't, files, mechanism
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, technique=None,
         note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, na=na))


prop('C01', 'Elementary functions have the right values and derivatives',
     'For every operand in the domain of a standard function (trigonometric, reciprocal '
     'trigonometric, inverse, hyperbolic, exponential, logarithms), the output equals that '
     'function of each entry of the operand and has the operand\'s shape. The total derivatives '
     'reported for it equal the exact derivative. Both hold at every evaluation of a model, for '
     'operands of any rank and however the operand was produced.',
     ['inputs', 'programs', 'histories'],
     'all real operand values in the domain; operands of rank 1 to 5; inputs, independent '
     'variables, anonymous, registered and assembled expressions; successive evaluations',
     'The tests evaluate no derivative of most of these functions and only one random point for '
     'the others; partials are wrong only for some ranks or regions of the domain.',
     ['omtools/std', 'omtools/comps/sincomp.py', 'omtools/comps/arctancomp.py'],
     [('value and partial formulas', 'omtools/comps/*comp.py compute/compute_partials')])
prop('C02', 'Arithmetic on variables and constants is exact, values and derivatives',
     'Sums, differences, products, quotients, powers and negations of variables of equal shape, '
     'and of a variable with a constant number or array, have the values ordinary entrywise '
     'arithmetic gives, for operands on either side. Their total derivatives are exact, also when '
     'the same variable appears more than once in an operation. Evaluating the model or its '
     'derivatives never changes the constants, so later evaluations stay correct.',
     ['inputs', 'programs', 'histories'],
     'all real operand values, all real constants and exponents (symbolic), shapes of rank 1 to '
     '4, all ways of producing operands, two successive evaluations',
     'Tests use a handful of constants and scalars; wrong coefficients, exponents, signs, '
     'aliasing of constant arrays and state kept between evaluations show only for other values '
     'or at the second evaluation.',
     ['omtools/core/variable.py', 'omtools/comps/linearcombination_comp.py',
      'omtools/comps/arithmetic_comps/power_combination_comp.py'],
     [('expression classes', 'omtools/core/variable.py Elementwise*'),
      ('generated components', 'LinearCombinationComp, PowerCombinationComp')])
prop('C03', 'Products of vectors, matrices and tensors are exact',
     'Inner, outer, dot, cross, matrix-vector and matrix-matrix products have the values of their '
     'mathematical definitions along the requested axes, and the output has the shape the '
     'definition gives. Their total derivatives with respect to every operand are exact, for '
     'every admissible combination of ranks, sizes and axes, and when both operands are the same '
     'variable.',
     ['inputs', 'programs', 'histories'],
     'all real operand values; enumerated operand shapes (non-square, size one, rank up to 4), '
     'all axis choices; operands produced in every way',
     'Tests check a few shapes at one point; row/column index errors in sparsity patterns or axes '
     'cancel for symmetric or square cases.',
     ['omtools/std/inner.py', 'omtools/std/outer.py', 'omtools/std/dot.py',
      'omtools/std/cross.py', 'omtools/std/matvec.py', 'omtools/std/matmat.py'],
     [('components', 'omtools/comps/*_product_comp.py, matmat_comp.py, matvec_comp.py')])
prop('C04', 'Einstein summation follows its subscripts',
     'An Einstein summation over one or more operands has the values and the output shape its '
     'subscripts define, in both notations. Its total derivatives with respect to every operand '
     'are exact, with dense and with sparse derivative format alike, also when an operand or a '
     'subscript is repeated.',
     ['inputs', 'programs', 'histories'],
     'all real operand values; enumerated subscript patterns over up to three operands; both '
     'notations, both derivative formats',
     'Tests use four patterns; the derivative code rewrites subscripts and selects entries by '
     'position, so other patterns take other paths.',
     ['omtools/std/einsum.py', 'omtools/std/einsum_new_api.py', 'omtools/utils/einsum_utils.py'],
     [('components', 'omtools/comps/einsum_comp_dense_derivs.py, einsum_comp_sparse_derivs.py')])
prop('C05', 'Sums and averages reduce over exactly the requested axes',
     'A sum or average of one variable over all entries or over any set of axes, and of several '
     'variables entry by entry, equals the mathematical sum or mean. The output has the shape '
     'left by removing those axes, and its total derivatives are exact.',
     ['inputs', 'programs', 'histories'],
     'all real values; shapes up to rank 4, every set of axes, one to four operands, repeated '
     'operands',
     'Tests take one shape and axis per function; wrong divisors and index patterns depend on '
     'sizes that coincide there.',
     ['omtools/std/sum.py', 'omtools/std/average.py'],
     [('components', 'omtools/comps/*tensor_sum_comp.py, *tensor_average_comp.py')])
prop('C06', 'Rearranging and expanding moves entries without changing them',
     'Reshaping, transposing, reordering axes and expanding produce arrays whose entries are '
     'exactly the operand\'s entries at the positions the requested shape, permutation or '
     'subscripts prescribe. Total derivatives are exactly the corresponding selection of entries.',
     ['inputs', 'programs', 'histories'],
     'all real values; enumerated shapes, every permutation of axes up to rank 4, enumerated '
     'expansions',
     'A permutation applied in the wrong direction, or index arrays in the wrong order, agree on '
     'self-inverse permutations and square shapes, which are what tests use.',
     ['omtools/std/reshape.py', 'omtools/std/transpose.py', 'omtools/std/reorder_axes.py',
      'omtools/std/expand.py', 'omtools/utils/reorder_axes_utils.py'],
     [('components', 'omtools/comps/reshape_comp.py, transpose_comp.py, reorder_axes_comp.py, '
                     'array_expansion_comp.py, scalar_expansion_comp.py')])
prop('C07', 'Smooth maximum and minimum are exact, bounded and safe',
     'The smooth maximum of n values is log(sum(exp(rho*v)))/rho and the smooth minimum its '
     'mirror image, over all entries, along any axis or entrywise over several variables, with '
     'exact total derivatives. The smooth maximum lies between the true maximum and that plus '
     'log(n)/rho, and the minimum symmetrically. No exponential is ever taken of a positive '
     'number, so no operand can overflow it.',
     ['inputs', 'programs', 'configurations', 'histories'],
     'all real values, all positive smoothing parameters (symbolic) and several fixed ones; shapes '
     'to rank 3, every axis, two to four operands',
     'Tests compare with the true extremum at one point for the default parameter.',
     ['omtools/std/max.py', 'omtools/std/min.py'],
     [('shift by the extremum, log-sum-exp', 'omtools/comps/scalar_extremum_comp.py, '
       'axiswise_*_comp.py, elementwise_*_comp.py')])
prop('C08', 'p-norms are exact, values and derivatives',
     'For every even p, the p-norm of all entries of a variable, or along any axis or set of '
     'axes, is the p-th root of the sum of p-th powers of exactly those entries. The total '
     'derivatives are exact wherever the norm is not zero, at every evaluation.',
     ['inputs', 'programs', 'histories'],
     'all real values with no reduced group entirely zero; p in {2,4,6,8}; every set of axes of '
     'shapes to rank 3',
     'Tests use one shape, p and axis; exponents and cached values matter elsewhere.',
     ['omtools/std/pnorm.py'],
     [('components', 'omtools/comps/vectorized_pnorm_comp.py, vectorized_axiswise_pnorm_comp.py')])
prop('C09', 'Rotation matrices rotate',
     'For every angle the matrix produced for axis x, y or z is orthogonal with determinant one, '
     'fixes that axis and rotates the plane normal to it by that angle counterclockwise. For an '
     'array of angles there is one matrix per angle, in order, and the total derivatives are '
     'exact.',
     ['inputs', 'programs', 'histories'],
     'all real angles; angle arrays to rank 3; three axes; compositions of rotations',
     'Tests compare one angle shape per axis.',
     ['omtools/std/rotmat.py'], [('component', 'omtools/comps/rotation_matrix_comp.py')])
prop('C10', 'Reading by index selects exactly the indexed entries',
     'Indexing a variable with an integer, a slice or a tuple of them gives exactly the entries '
     'that numpy indexing gives (an integer keeps an axis of length one), with exact derivatives. '
     'This holds for any number of reads of one variable in one model, including repeated reads, '
     'reads of reads, and variables registered before or after they are read.',
     ['inputs', 'programs', 'histories'],
     'all real values; every int and non-empty slice with start in [0,n), stop in [-n,n] and '
     'steps up to 3 of sizes up to 5, tuples over ranks 2 and 3',
     'Tests use a few forward slices; steps, negative stops, repeated keys and reads of '
     'intermediate results take different paths.',
     ['omtools/core/variable.py', 'omtools/utils/slice_to_list.py'],
     [('key normalisation and sharing', 'omtools/core/variable.py Variable.__getitem__'),
      ('component', 'omtools/comps/decompose_comp.py')])
prop('C11', 'Assignment by index places each expression exactly where it is assigned',
     'An output assembled by assigning expressions to elements, slices or blocks has each '
     'expression\'s entries at exactly the assigned positions, in order, with exact derivatives. '
     'The order of the assignments, and whether the pieces are registered before or after, make '
     'no difference.',
     ['inputs', 'programs', 'histories'],
     'all real values; every partition of up to 4 elements with the orders of assignment, all '
     'slices of sizes up to 4, blocks to rank 3, pieces produced in every way',
     'Tests assign a few contiguous pieces in order.',
     ['omtools/core/explicit_output.py', 'omtools/utils/slice_to_list.py'],
     [('target indices', 'omtools/core/explicit_output.py ExplicitOutput.__setitem__'),
      ('component', 'omtools/comps/indexed_pass_through_comp.py')])
prop('C12', 'Execution order respects every dependency',
     'For every acyclic model, the generated components run in an order in which each comes after '
     'everything it depends on, with no feedback, whatever the order in which expressions were '
     'written, registered or visited. Every expression an output needs appears exactly once and '
     'expressions nothing needs do not appear.',
     ['programs', 'schedules'],
     'all dependency graphs up to the stated number of nodes (symbolic edges), all iteration '
     'orders of the dependency sets, both branch sorting modes; chains and fans of larger size',
     'Iteration order of dependencies is not deterministic; a test sees one order of one graph.',
     ['omtools/core/graph.py', 'omtools/core/group.py', 'omtools/core/variable.py'],
     [('transitive reduction, cost sort, topological sort', 'omtools/core/graph.py')])
prop('C13', 'Programs mean what their expressions say',
     'A model built from any composition of expressions computes, for every registered output, '
     'exactly the value of the expression registered under that name, and exact total '
     'derivatives with respect to every input. When expressions are registered, renamed, shared, '
     'registered after use or left unused makes no difference to the values.',
     ['programs', 'inputs', 'histories'],
     'enumerated families of programs with sharing and registration orders; all real inputs',
     'Tests contain a few fixed programs.',
     ['omtools/core/group.py', 'omtools/core/variable.py'],
     [('late binding of names', 'omtools/core/variable.py build closures'),
      ('registration', 'omtools/core/group.py register_output')])
prop('C14', 'Subsystems see their inputs and deliver their outputs',
     'A model split over nested groups, with subsystems added between expressions, computes the '
     'same values and total derivatives as the same equations in one group. Every subsystem runs '
     'after the outputs registered before it was added, and before the expressions over inputs '
     'declared after it.',
     ['programs', 'inputs', 'histories', 'configurations'],
     'enumerated nestings (depth to 3), promotions and orders of registration; all real inputs',
     'Tests contain one or two nestings and check no derivatives.',
     ['omtools/core/group.py', 'omtools/core/subsystem.py'],
     [('ordering of subsystems', 'omtools/core/group.py add_subsystem/declare_input'),
      ('with-blocks', 'omtools/core/group.py create_group')])
prop('C15', 'Cyclic definitions converge to solutions of their equations',
     'An output defined in terms of itself yields a model whose fixed points are exactly the '
     'solutions of that equation, and that an iterative solver started from the output\'s initial '
     'value drives there. No other dependency becomes feedback, and every use of the output in '
     'its own definition refers to the iterated value.',
     ['programs', 'inputs', 'histories'],
     'enumerated cyclic programs with up to three coupled outputs; all real inputs and iterates',
     'Tests contain one or two cycles at a single point.',
     ['omtools/core/explicit_output.py', 'omtools/utils/replace_output_leaf_nodes.py'],
     [('breaking the cycle', 'omtools/utils/replace_output_leaf_nodes.py'),
      ('component', 'omtools/comps/pass_through_comp.py')])
prop('C16', 'Implicit components solve their residuals, with exact derivatives',
     'For implicit outputs defined by residuals, the residual of each output is the value of the '
     'residual expression at the current inputs and outputs, and its partial derivatives with '
     'respect to every input and every output are exact. Total derivatives through the component '
     'follow the implicit function theorem, in forward and reverse mode.',
     ['programs', 'inputs', 'histories'],
     'enumerated residual programs with up to three coupled outputs, scalar and array; all real '
     'inputs and states (states symbolic)',
     'Tests solve three scalar quadratics and check one derivative.',
     ['omtools/core/implicit_output.py', 'omtools/comps/implicit_component.py'],
     [('residuals from an inner model', 'omtools/comps/implicit_component.py')])
prop('C17', 'Bracketed search keeps the root in its bracket and terminates',
     'For a residual that changes sign over the given bracket, every step of the bracketed search '
     'keeps a sign change inside the current bracket and halves it, for every entry independently '
     'and whichever end is the lower one. The value returned lies in the bracket, within the '
     'halving bound of a root, and the residuals are evaluated at most as often as the iteration '
     'limit allows, besides at the two ends.',
     ['inputs', 'histories', 'configurations'],
     'residuals as uninterpreted functions with a sign change; symbolic brackets; bounded numbers '
     'of iterations, several entries',
     'Tests search three quadratics with one bracket each.',
     ['omtools/core/implicit_output.py', 'omtools/comps/implicit_component.py'],
     [('bisection', 'omtools/comps/implicit_component.py _bracketed_solve')])
prop('C18', 'Default values, shapes and design variables reach the model unchanged',
     'Every declared input, independent variable and output starts from exactly the value given '
     'for it, expanded to its shape, when nothing is connected to it, and keeps its declared '
     'shape. This holds however the variable is first used, and exactly the independent variables '
     'marked as design variables become design variables.',
     ['programs', 'inputs', 'configurations'],
     'symbolic default values for every operation the library offers as first user; scalars, '
     'arrays and lists as defaults',
     'Tests set values after setup and so do not see defaults.',
     ['omtools/utils/get_shape_val.py', 'omtools/core/input.py', 'omtools/core/indep.py'],
     [('values handed to components', 'omtools/std/*.py in_vals/val')])
prop('C19', 'Conditionals select one branch by the sign of the condition',
     'A conditional yields the first branch where the condition is zero or positive and the '
     'second where it is negative, entry for entry, for branches of any shape. Its total '
     'derivatives are those of the selected branch, at each evaluation anew.',
     ['inputs', 'programs', 'histories'],
     'all real conditions and branch values; shapes to rank 3; nested and repeated conditionals; '
     'histories that switch branches',
     'Tests take each branch once without derivatives.',
     ['omtools/std/if_else.py'], [('component', 'omtools/std/if_else.py ConditionalComponent')])
prop('C20', 'Ill-formed models are rejected, well-formed ones are not',
     'Operands of unequal shape, contractions of unequal extents, indices out of range or '
     'overlapping, undefined or doubly defined or doubly registered outputs and non-variables are '
     'refused with an exception when the expression is written or the model is set up. They never '
     'produce a model that runs, and well-formed models are never refused.',
     ['programs', 'configurations'],
     'symbolic extents and indices within bounds, for every operation with a precondition',
     'Tests cover one instance of each rejection, if any.',
     ['omtools/core/variable.py', 'omtools/core/explicit_output.py', 'omtools/std'],
     [('checks', 'omtools/std/*.py, omtools/core/*.py raise statements')])
prop('C21', 'Generated names are unique and valid',
     'Distinct expressions of a process get distinct generated names, however many there are '
     'below the limit the naming scheme can represent, and every generated name is accepted as a '
     'component name. Two different expressions registered under names of their own never share '
     'a component.',
     ['programs', 'inputs'],
     'all pairs of counter values below 63 million (symbolic integers)',
     'Tests create a few hundred expressions.',
     ['omtools/utils/gen_hex_name.py', 'omtools/core/variable.py'],
     [('naming', 'omtools/utils/gen_hex_name.py')])
prop('C22', 'Models are independent and can be set up and evaluated again',
     'Setting a model up again, building several instances of one class, or deriving one class '
     'from another gives models equal to freshly built ones, and no instance influences another. '
     'Values and derivatives after any sequence of evaluations and linearizations depend only on '
     'the current inputs.',
     ['histories', 'programs'],
     'histories of up to four evaluations, linearizations and set-ups over one or two instances; '
     'all real inputs',
     'Tests set up and run each model once.',
     ['omtools/core/group.py', 'omtools/comps'],
     [('rebuild of the graph', 'omtools/core/group.py _post_setup')])
prop('C23', 'Option dictionaries accept exactly the declared values',
     'A declared option accepts a value exactly when it satisfies the declared type, value set '
     'and bounds, keeps the last accepted value, and reports required options that were never '
     'set. A refused assignment leaves the previous value in place.',
     ['inputs', 'histories', 'configurations'],
     'symbolic values and bounds; sequences of declarations and assignments',
     'No test exercises the dictionary.',
     ['omtools/utils/options_dictionary.py'],
     [('validation', 'omtools/utils/options_dictionary.py')])
prop('C24', 'Combination components compute the formula their options state',
     'A linear combination, a product of powers, or a linear combination of products of powers '
     'placed by hand in an OpenMDAO model computes exactly the formula its options state, with '
     'exact derivatives. This holds for any number of inputs of any shape and for coefficients, '
     'exponents and constants given as numbers, arrays, lists or dictionaries. Evaluation never '
     'changes the options, and several components may be given the same ones.',
     ['inputs', 'configurations'],
     'symbolic inputs, coefficients, constants and exponents; forms of the options',
     'The tests reach these components only through operators, with one input or two.',
     ['omtools/comps/linearcombination_comp.py',
      'omtools/comps/arithmetic_comps/power_combination_comp.py',
      'omtools/comps/linearpowercombination.py', 'omtools/utils/process_options.py'],
     [('linear combination', 'omtools/comps/linearcombination_comp.py'),
      ('product of powers', 'omtools/comps/arithmetic_comps/power_combination_comp.py'),
      ('linear combination of products', 'omtools/comps/linearpowercombination.py')])


def main():
    built = [p for p in P if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'] or
                            ['values and total derivatives of a set-up problem'],
                            'hook_needed': None}}) + '\n')
    man = {'version': 1,
           'setup_cmd': '/opt/venv/bin/python tools/selftest.py',
           'checks': [], 'not_applicable': [],
           'notes': 'No hooks: the checks subclass and call the public API of the code in /repo.'}
    for p in P:
        if p in built:
            man['checks'].append({
                'property': p['id'],
                'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'],
                'technique': p['technique'] or T_DEFAULT,
                'level': 'model_checking',
                'level_note': p['note'] or NOTE})
        else:
            man['not_applicable'].append({'property': p['id'],
                                          'reason': p['na'] or 'check not built yet'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()

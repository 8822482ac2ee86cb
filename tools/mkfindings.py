"""One-off: the fixed defects, by commit."""
import json, subprocess
PROPS = [
 ('flatten arcsin partials', 'C01', 'total derivative of arcsin wrong for operands of rank >= 2'),
 ('whole sech partial', 'C01', 'total derivative of sech wrong for operands of rank >= 2'),
 ('overwrite an array coefficient while', 'C02', 'compute_partials multiplied the constant array of a*x in place: wrong at the second evaluation'),
 ('every entry of an array exponent', 'C02', 'x**array used only the first exponent'),
 ('exception on division by zero', 'C20', 'x/0 ended the interpreter instead of raising'),
 ('division by an array of constants', 'C02', 'x/array raised ValueError (truth value of an array)'),
 ('index expressions whose default', 'C10', 'indexing an intermediate array expression raised'),
 ('negative stop when reading', 'C10', 'x[0:-1] rejected when reading, accepted when assigning'),
 ('average over more than one axis', 'C05', 'average over several axes divided by the wrong number'),
 ('default value of a scalar input that is expanded', 'C18', 'expand lost the default value of its operand'),
 ('matmat product the same shape', 'C03', 'matmat: shape of the expression differed from the component'),
 ('reject an expansion that would permute', 'C06', 'expand with subscripts that permute axes computed wrong values'),
 ('multiply a matrix by a vector that is an intermediate', 'C03', 'matmat of a matrix and an intermediate vector raised'),
 ('reject operands and exponents', 'C20', 'unsupported operands were accepted and failed only in setup, or silently gave a variable with no component'),
 ('registered after it is assigned to elements', 'C11', 'piece registered after its assignment left unconnected'),
 ('if_else derivatives', 'C19', 'if_else had no correct derivatives and rejected array branches'),
 ('more than one operand of an operation', 'C02', 'the same expression used twice in one operation raised'),
 ('cross product along a negative axis', 'C03', 'cross along a negative axis gave wrong shape'),
 ('operands that follow a repeated operand', 'C04', 'einsum derivatives wrong for operands after a repeated one'),
 ('nonzero entries of sparse einsum', 'C04', 'sparse einsum derivatives selected the wrong entries'),
 ('indirect dependencies in descending', 'C12', 'removing indirect dependencies removed the wrong ones (set order)'),
 ('delete unused expressions from the record', 'C12', 'unused expressions were never deleted from the record of nodes'),
 ('classes that inherit setup', 'C22', 'class without a setup of its own raised'),
 ('build the model again', 'C22', 'second Problem.setup() of one model raised or duplicated components'),
 ('its own initial value', 'C16', 'initial value of an implicit output ignored'),
 ('residuals of an implicit component to share', 'C16', 'two residuals over one input raised'),
 ('more than one output of an implicit', 'C17', 'several implicit outputs with brackets failed'),
 ('honor maxiter', 'C17', 'bracketed search ignored maxiter'),
 ('coupling between implicit outputs', 'C16', 'coupled implicit outputs: derivatives and linear solves ignored coupling and accumulated'),
 ('linearize an implicit component', 'C16', 'linearization used stale values of the inner model'),
 ('visit every node once when edges', 'C12', 'time to set up a two-state recurrence grew exponentially with its number of steps'),
 ('every use of an output in its own', 'C15', 'define: uses of the output next to one another in its own definition were skipped, so the value was not the fixed point of the definition'),
 ('visit every node once when inputs', 'C16', 'time to set up a residual grew exponentially with the number of steps of a recurrence'),
 ('accept extents computed by numpy', 'C13', 'inner and dot of a sum or average over axes were refused: extents computed by numpy are not int'),
 ('cyclic definition from the initial value', 'C15', 'an output defined cyclically started from 1 whatever initial value it was given'),
 ('declare partials of every implicit output', 'C16', 'totals of coupled implicit outputs were zero: OpenMDAO takes undeclared partials for independence'),
 ('vector of a matrix-vector product keep', 'C18', 'the vector of ot.matmat(A, v) got shape (n, 1), and using it elsewhere made setup raise'),
 ('residuals to share expressions', 'C16', 'a subexpression shared by two residuals made setup raise (variable name already exists)'),
 ('operands of unequal shape in sums', 'C20', 'sum and average of operands of unequal shape were accepted and ran'),
 ('inner products that contract unequal', 'C20', 'inner products of unequal extents were accepted; some ran, others failed at run time'),
 ('first operand of a matrix product', 'C20', 'matrix products with a first operand of rank 3 were accepted and failed at run time'),
 ('do not match the subscripts of einsum', 'C20', 'einsum operands that do not fit the subscripts were accepted; some ran by broadcasting'),
 ('reshaping into a shape of another size', 'C20', 'reshape to another size was accepted and failed at run time'),
 ('rotation axes that do not exist', 'C20', 'rotmat about an axis other than x, y, z was accepted and failed at run time'),
 ('index assignment to an output that is already', 'C20', 'an output with a definition could also be index-assigned: the definition was lost'),
 ('constants that do not fit the shape', 'C20', 'array constants of another shape were accepted and failed at run time'),
 ('implicit outputs without a residual', 'C20', 'an implicit output that is created but has no residual was dropped silently'),
 ('same names when a model', 'C22', 'derivatives of a model with a group kept from one set-up to the next were wrong after the second set-up: anonymous expressions got new names, OpenMDAO keeps scopes by name'),
 ('keep what is defined outside', 'C22', 'expressions and subsystems added to a Group outside of setup were lost at the second set-up'),
 ('option types given as a list', 'C23', 'types given as a list or a set are accepted by declare but refused every value'),
 ('arrays of rank two and above', 'C24', 'LinearCombinationComp with a coefficient array of rank 2 made setup raise'),
 ('array coefficient of a linear power', 'C24', 'LinearPowerCombinationComp multiplied the derivative into array coefficients: later values and derivatives were wrong'),
 ('inputs of and after internal subsystems', 'C16', 'inputs declared after a subsystem inside an implicit component, or read by the subsystem only, were not inputs of the component: residuals used their default values'),
 ('derivatives of zeroth powers', 'C02', 'the derivative of x**0, and of a combination in which a power of x is 0, was nan where x is 0'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
import os
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.json')
out = []
used = set()
for key, prop, what in PROPS:
    hs = [l.split(' ', 1) for l in log if key in l]
    assert len(hs) == 1, (key, hs)
    used.add(hs[0][0])
    out.append({'property': prop, 'case': '', 'fixed': hs[0][0], 'what': what,
                'entry': 'fixed: property=%s %s %s' % (prop, hs[0][0], what)})
rest = [l for l in log if ' fix:' in l and l.split()[0] not in used]
assert not rest, rest
json.dump({'findings': out}, open(path, 'w'), indent=1)

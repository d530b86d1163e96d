G = ['factor_graph.cpp', 'factor_graph.hpp']
O = ['sparse_optimizer.cpp', 'sparse_optimizer.hpp']
prop('C22', 'Finalised graph lays variables and factors out without gaps or overlap',
     'After finalising, the free variables occupy consecutive, disjoint column ranges of their sizes in insertion order, constants occupy none, and the factors occupy consecutive disjoint row ranges of their residual sizes in insertion order. The reported numbers of values and residuals are the totals.',
     ['programs', 'configurations'], 'every number, size and constancy of variables and factors', 'tests build a few fixed graphs',
     G, [('finalize_structure', 'factor_graph.cpp')], ['variable_placement', 'factor_placement', 'num_values', 'num_residuals'])
prop('C23', 'The full residual vector is the concatenation of the factor residuals',
     'The full residual of a finalised graph has, at each factor\'s rows, exactly that factor\'s residual at the current variable values, on every call, for both forms of the call.',
     ['programs', 'histories'], 'every graph, every sequence of evaluations and value changes', 'tests check a few graphs once',
     G, [('compute_full_residual_vector', 'factor_graph.cpp')], ['compute_full_residual_vector', 'residual()'])
prop('C24', 'The dense Jacobian places every factor block and zeros elsewhere',
     'The dense Jacobian of a finalised graph has at (rows of factor, columns of free variable) exactly that factor\'s block at the current values and zero everywhere else, on every call.',
     ['programs', 'histories'], 'every graph, every sequence of evaluations and value changes', 'as C23',
     G, [('compute_full_jacobian_matrix', 'factor_graph.cpp')], ['compute_full_jacobian_matrix', 'jacobian()'])
prop('C25', 'The sparse Jacobian equals the dense Jacobian on every call',
     'The sparse Jacobian of a finalised graph is, entry for entry, the dense Jacobian at the current values, on the first and on every later call, whatever the factor and variable order.',
     ['programs', 'histories'], 'every graph, every sequence of evaluations and value changes', 'the second call takes a different code path than the first; tests look at few graphs',
     G, [('compute_sparse_jacobian_matrix', 'factor_graph.cpp'), ('copy_sparse_data_to_eigen_matrix', 'factor_graph.cpp')], ['compute_sparse_jacobian_matrix', 'sparse_jacobian()'])
prop('C26', 'Graph-level get, set and increment act on each free variable exactly',
     'The variable vector is the concatenation of the free variables\' values in column order; setting the graph from a vector, or applying an increment, gives each free variable exactly its own slice and leaves constant variables untouched. Setting the graph from its own variable vector changes nothing.',
     ['programs', 'inputs'], 'every graph and vector', 'tests use few graphs',
     G, [('get_variable_vector', 'factor_graph.cpp'), ('set_variable_values_from_vector', 'factor_graph.cpp'), ('apply_increment', 'factor_graph.cpp')], ['get_variable_vector', 'set_variable_values_from_vector', 'apply_increment'])
prop('C27', 'Graph misuse is rejected and leaves the graph unchanged',
     'Adding a second variable or factor with an existing id, evaluating or incrementing before finalising, finalising with more free values than residuals or with a factor on a free variable that is not in the graph, and vectors of the wrong length all throw. A rejected addition or vector changes no variable and no lookup.',
     ['programs', 'inputs'], 'every graph and every such misuse', 'tests cover a few of them',
     G, [('add_variable', 'factor_graph.cpp'), ('finalize_structure', 'factor_graph.cpp')], ['exceptions'])
prop('C28', 'Finalising again after a change gives the same results as a fresh graph',
     'After adding variables or factors or changing constancy and finalising again, residuals, dense and sparse Jacobians and layout are exactly those of a graph built fresh with the same content.',
     ['histories', 'programs'], 'every sequence of add, set constant, evaluate, finalise', 'tests finalise once',
     G, [('finalize_structure', 'factor_graph.cpp')], ['compute_sparse_jacobian_matrix', 'compute_full_jacobian_matrix', 'compute_full_residual_vector'])
prop('C29', 'Optimizer statistics describe the graph it leaves behind',
     'After a run in which no factor throws, the reported chi-squared and residual norm are those of the graph\'s residual at its final variable values, the initial ones those at the start, and the iteration count is the number of iterations performed (one in which no trial step is accepted counts) and never exceeds the configured maximum.',
     ['inputs', 'histories', 'configurations'], 'every problem, every setting, every sequence of accepted, rejected and failed steps', 'tests look at convergence of nice problems',
     O, [('optimize', 'sparse_optimizer.cpp')], ['current_stats_', 'initial_stats_'])
prop('C30', 'Levenberg-Marquardt never leaves the graph worse than it started',
     'A Levenberg-Marquardt iteration in which no factor throws either strictly lowers the sum of squared residuals or leaves every variable value exactly as it was before the iteration.',
     ['inputs', 'histories', 'fault_sequences'], 'every problem, every sequence of rejected steps and failed factorisations', 'tests rarely reach rejection',
     O, [('single_step_levenberg_marquardt', 'sparse_optimizer.cpp')], ['value()', 'current_stats_'])
prop('C31', 'Optimisation never changes a constant variable',
     'No optimisation with either method, whatever its outcome, changes the value of a constant variable or calls an update on it.',
     ['inputs', 'histories', 'configurations'], 'every problem and outcome', 'tests check one or two',
     O, [('single_step_gauss_newton', 'sparse_optimizer.cpp')], ['value()'])
prop('C32', 'Each step solves the (damped) normal equations at the current state',
     'The increment of a Gauss-Newton step is the learning rate times the solution of J^T J dx = -J^T r at the values before the step, and each Levenberg-Marquardt trial the same with the current damping added to the diagonal; each free variable receives exactly its slice.',
     ['inputs', 'histories'], 'every problem and every sequence of trials', 'converging to the minimum does not show that the step is right',
     O, [('single_step_gauss_newton', 'sparse_optimizer.cpp'), ('single_step_levenberg_marquardt', 'sparse_optimizer.cpp')], ['apply_increment'])
prop('C33', 'Levenberg-Marquardt damping follows its schedule and stays within bounds',
     'The damping starts at the configured initial value, is multiplied by the down factor after an accepted trial and by the up factor after a rejected or failed one, and never leaves the range from 1e-12 to the configured maximum.',
     ['inputs', 'histories', 'fault_sequences'], 'every problem and every sequence of trials', 'tests do not observe damping',
     O, [('single_step_levenberg_marquardt', 'sparse_optimizer.cpp')], ['current_stats_.damping_parameter'])
prop('C34', 'Reported status agrees with what happened',
     'After optimisation the status is never RUNNING; SUCCESS implies valid statistics and a finite residual, no larger than the initial one unless the last step was shorter than the step tolerance; every failure status implies the statistics are marked invalid. An error inside a step ends the run with a failure status instead of escaping.',
     ['inputs', 'histories', 'fault_sequences'], 'every problem, setting, step outcome', 'tests check successes only',
     O, [('optimize', 'sparse_optimizer.cpp')], ['current_stats_.status', 'current_stats_.valid'])
prop('C35', 'Covariance estimates are valid blocks of the inverse Hessian of this graph',
     'When reported valid, the covariance of a variable is the symmetric block of (J^T J)^-1 at that variable\'s columns for the graph as the last optimisation left it, also when the optimizer is reused. For a constant or unknown variable, before optimisation or with non-finite entries it is reported invalid; it is reported valid when the matrix could be factorised and solved with entries up to 1e12.',
     ['inputs', 'histories'], 'every problem, every call order', 'tests compare a single simple case',
     O, [('estimate_covariance', 'sparse_optimizer.cpp'), ('prepare_to_estimate_covariances', 'sparse_optimizer.cpp')], ['estimate_covariance'])
prop('C36', 'Python objects stay alive while a factor or graph refers to them',
     'A Python program that keeps only a factor or graph can evaluate it without touching freed variables.',
     ['programs', 'histories'], 'every order of object deletion in Python', 'lifetime bugs depend on garbage collection order',
     [], [], na='the guarantee lives in the pybind11 glue (Python object lifetimes), which the verifier cannot reach: no contract language here covers CPython reference counting; the bindings are also not part of the build')

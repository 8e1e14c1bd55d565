I = 'src/Interpreter.cpp'
m('20a', 'C20', I, "(_text.front() != '\\n' && _text.front() != ';')) _pop();", "_text.front() != '\\n') _pop();")
m('20b', 'C20', I, "*o1.i == -1 ? 0 : *o0.i%*o1.i", "*o0.i%*o1.i")
m('20c', 'C20', I, "if (depth && !backslash) value.push_back(c);", "if (depth) value.push_back(c);")
m('20d', 'C20', I, "if (op.precedence < precedence) {", "if (op.precedence <= precedence && (op.precedence < precedence || op_name == \"^\")) {")
m('20e', 'C20', I, 'if (!val.i) val.d = variables->lookup<double>(n);', 'val.d = variables->lookup<double>(n);')
m('20f', 'C20', I, '*i.i <= int(str.s->size())', '*i.i <= int(str.s->size()) + 1')
m('20g', 'C20', I, 'except = except + "; exception = {}; except = {};";', 'except = except + "; exception = {};";')
m('20h', 'C20', I, '{"<=", {4, _comparison_op<_le<double>, _le<int>>}}', '{"<=", {4, _comparison_op<_lt<double>, _le<int>>}}')
N = 'include/Namespace.hpp'
m('21a', 'C21', N, "if (!exists_recursive(name)) assign(name, value);", "if (!exists(name)) assign(name, value);")
m('21b', 'C21', N, "    if (_get_map<int>().count(name)) {\n      return {*lookup<int>(name)};\n    }", "    if (auto value = lookup<int>(name)) return {*value};")
m('21c', 'C21', N, "if (space->exists_recursive(name)) return space->lookup<T>(name);", "if (space->exists(name)) return space->lookup<T>(name);")
h = 'src/History_monitor.cpp'
m('22a', 'C22', h, "if (_sz && iteration < _add_threshold) return;", "if (iteration < _add_threshold) return;")
m('22b', 'C22', h, "_sz > _samples ||", "_sz >= _samples ||")
m('22c', 'C22', h, "_max = -huge;\n  for", "for")
m('22d', 'C22', h, "_iterations[_start] < iteration*(1 - _win_sz)", "_iterations[_start] < iteration - _samples*_win_sz")
L = 'src/Layer_sequence.cpp'
m('23a', 'C23', L, "(1 - ws*nw)/(1 - first_growth)", "(1 - ws*nw)")
m('23b', 'C23', L, "(i_layer < nw) ? ws", "(i_layer <= nw) ? ws")
m('23c', 'C23', L, "std::ceil(std::log(.5/ws)/std::log(2))", "std::ceil(std::log(1./ws)/std::log(2)) - (ws < .1)*4")
m('24a', 'C24', 'src/filter_limit.cpp', "if (mode_norm > threshold) modes(i_mode) *= threshold/mode_norm;", "if (modes(i_mode) > threshold) modes(i_mode) *= threshold/mode_norm;")
m('24b', 'C24', 'src/filter_limit.cpp', "std::pow(decay_rate, total);", "std::pow(decay_rate, std::min(total, row_size));")
m('24c', 'C24', 'src/thermo.cpp', "(data[(n_dim + 1)*n_qpoint + i_qpoint] > 0.)", "(data[(n_dim + 1)*n_qpoint + i_qpoint] >= 0.)")
m('24d', 'C24', 'src/thermo.cpp', "admiss = admiss && (data", "admiss = (data")
S = 'src/Simplex_geom.cpp'; SH = 'include/Simplex_geom.hpp'; SG = 'src/Surface_geom.cpp'
m('25a', 'C25', S, "i_edge < 3; ++i_edge", "i_edge < 2; ++i_edge")
m('25b', 'C25', S, "lstsq(1) >= 0 && lstsq.sum() <= 1", "lstsq(1) >= 0 && lstsq.maxCoeff() <= 1")
m('25c', 'C25', SH, "std::sqrt(bball.radius_sq) <= limit", "bball.radius_sq <= limit")
m('25d', 'C25', SH, "tree.nominal_size()*std::sqrt(n_dim)/2 > limit", "tree.nominal_size()/2 > limit")
m('25e', 'C25', SH, "(nearest.empty() && distance_guess < max_distance)", "(nearest.empty() && 2*distance_guess < max_distance)")
m('25f', 'C25', 'include/math.hpp', "colwise().squaredNorm().maxCoeff();", "colwise().squaredNorm().mean();")
m('25h', 'C25', SG, "nearest.merge(c + r*(point - c).normalized());", "nearest.merge(c + r*(point - c)/std::max((point - c).norm(), r/2));")
m('25i', 'C25', SH, "arr.sum() <= 1 + gap_tol", "arr.maxCoeff() <= 1 + gap_tol")
m('25j', 'C25', SH, "diff.minCoeff() > 0. && diff.maxCoeff() < child->nominal_size()", "diff.maxCoeff() < child->nominal_size()")
A = 'src/Accessible_mesh.cpp'
m('30a', 'C30', A, "is_min_corner && elem.tree->coordinates()[j_dim]%2 == 0", "is_min_corner && (j_dim > 1 || elem.tree->coordinates()[j_dim]%2 == 0)")
m('30b', 'C30', A, "ptr->refinement_level() > rl + 1;}", "ptr->refinement_level() > rl + 2;}")
m('30c', 'C30', A, "if (unref) unref = unref && !needs_refine(parent);", "if (unref && elem.refinement_level() > 2) unref = unref && !needs_refine(parent);")
m('30d', 'C30', A, "else if (unref && !ref) elem.record = -1;", "else if (unref) elem.record = -1;")
m('30e', 'C30', A, "return n_before > n_after;", "return n_before != elems.size();")
m('30f', 'C30', A, "    if (elems[i_elem].record == -1) elems[i_elem].record = 0;\n", "")
m('30g', 'C30', A, "tree_bcs[2*i_dim + sign]", "tree_bcs[2*i_dim + (sign && nd < 3)]")
m('30h', 'C30', A, "else elem.record = 0; // if we didn't unrefine", "else parent = nullptr; // if we didn't unrefine")
m('26a', 'C26', 'src/Equidistant.cpp', "if (i_node != i_result)", "if (i_node != i_result || row_size > 5)")
m('26b', 'C26', 'src/Physical_basis.cpp', "for (int i_dim = n_dim - 1; i_dim > 0; --i_dim) {", "for (int i_dim = n_dim - 1; i_dim > n_dim - 2 && i_dim > 0; --i_dim) {")
m('26c', 'C26', 'src/Physical_basis.cpp', "auto sqrt_w = weights.cwiseSqrt();", "auto sqrt_w = weights.cwiseAbs();")
m('26d', 'C26', 'src/Basis.cpp', "if (i_node != j_node) {", "if (i_node != j_node && !(i_node == row_size - 1 && j_node == 0 && row_size > 4)) {")
m('26e', 'C26', 'script/Basis.py', "*0.5**i_inner*", "*0.5**min(i_inner, 3)*")

H = r'''
#include "data/dataset.hpp"
#include <cmath>
using namespace EdgeLearning; using DS = Dataset<double>; typedef std::vector<double> V; typedef std::set<SizeType> S;
static V iota(int n) { V v(n); for (int i = 0; i < n; ++i) v[i] = i + 1; return v; }
static bool inv(const DS& d) { size_t f = d.feature_size(), q = d.sequence_size(), n = d.size(); if (d.data().size() != n * f) return false; if (q ? n % q : n) return false; auto a = d.label_idx(), b = d.input_idx(); S s(a.begin(), a.end()); s.insert(b.begin(), b.end()); return s.size() == f && a.size() + b.size() == f && (s.empty() || *s.rbegin() < f); }
'''
F = 'source/data/dataset.hpp'
def B(id, p, old, new, needs, breaks, demo): return dict(id=id, property=p, file=F, edits=[(old, new)] if isinstance(old, str) else list(zip(old, new)), needs=needs, breaks=breaks, stub=True, demo=H + demo)
BUGS = [
B('c17-label-erase', 'C17', '''        _labels_idx = set;
        for (auto it = _labels_idx.begin(); it != _labels_idx.end(); )
        {
            if (*it >= _feature_size) _labels_idx.erase(it++); else ++it;
        }''', '''        _labels_idx = set;
        auto past = _labels_idx.find(_feature_size);
        if (past != _labels_idx.end())
        {
            _labels_idx.erase(past, _labels_idx.end());
        }''', 'a label column above the feature size while the feature size itself is not listed', 'out-of-range label columns stay in the set',
  r'''int main() { DS d(iota(6), 3, 1); d.label_idx({1, 5}); return !inv(d); }'''),
B('c17-mat-first-row', 'C17', '''            for (const auto& v: data)
            {
                _feature_size = std::min(v.size(), _feature_size);
            }
            if (_feature_size != 0)''', '''            for (SizeType i = 1; i + 1 < data.size(); ++i)
            {
                _feature_size = std::min(data[i].size(), _feature_size);
            }
            _feature_size = std::min(data[data.size() / 2].size(),
                                     _feature_size);
            if (_feature_size != 0)''', 'a ragged matrix of at least three rows whose last row is the shortest', 'the feature size exceeds the length of the last row and memory behind it is read',
  r'''int main() { DS d(DS::Mat{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}, {1, 2}}, 1); return d.feature_size() != 2 || !inv(d); }'''),
B('c17-seq-grow', 'C17', '''        _sequence_size = std::min(s, _feature_amount);
''', '''        if (_sequence_size == s) return;
        _sequence_size = s;
''', 'a sequence size larger than the number of entries', 'all entries are dropped and the sequence size exceeds the dataset',
  r'''int main() { DS d(iota(6), 2, 1); d.sequence_size(5); return d.size() != 3 || d.sequence_size() != 3 || !inv(d); }'''),
B('c18-seq-stride', 'C18', '''                dst[i++] = _data[data_entry_idx + idx];
            }
            data_entry_idx += _feature_size;''', '''                dst[i++] = _data[data_entry_idx + idx];
            }
            data_entry_idx += set_idx.empty() ? _feature_size
                : std::max(set_idx.size(), *set_idx.rbegin() + 1);''', 'the last column is not among the requested ones', 'the second row of a sequence is read from the middle of the first',
  r'''int main() { DS d(iota(12), 3, 2, S{0}); V l = d.labels_seq(1), i = d.inputs_seq(1); return l != V{7, 10} || i != V{8, 9, 11, 12}; }'''),
B('c18-inputs-shape', 'C18', '''        return Dataset<T>(ret, _input_idx.size(), _sequence_size);''', '''        return Dataset<T>(ret, _input_idx.size(),
            std::min(_sequence_size, std::max(_sequence_amount, SizeType(1))));''', 'fewer sequences than entries per sequence', 'inputs() groups its rows in shorter sequences than the dataset',
  r'''int main() { DS d(iota(12), 3, 2, S{2}); DS e(iota(12), 3, 4, S{2}); return d.inputs().sequence_size() != 2 || e.inputs().sequence_size() != 4; }'''),
B('c19-split-round', 'C19', '''            / static_cast<NumType>(_sequence_size)) * _sequence_size;
        return SplitDataset(subdata(0, to), subdata(to, _feature_amount));''', '''            / static_cast<NumType>(_sequence_size)) * _sequence_size;
        auto from = std::max(to, std::min(_feature_amount,
            static_cast<SizeType>(std::ceil(perc
                * static_cast<NumType>(_feature_amount)))));
        if (_sequence_size == 1) from = to;
        return SplitDataset(subdata(0, to), subdata(from, _feature_amount));''', 'sequences longer than one entry and a fraction that does not fall on a sequence boundary', 'the entries between the two cut points are lost',
  r'''int main() { DS d(iota(12), 1, 3); for (double p = 0; p <= 1.0; p += 0.07) { auto s = d.split(p); V v = s.training_set.data(); V w = s.testing_set.data(); v.insert(v.end(), w.begin(), w.end()); if (v != iota(12)) return 1; } return 0; }'''),
B('c19-concat-labels', 'C19', '''        if (axis != 2 && d1._labels_idx != d2._labels_idx)''', '''        if (axis != 2 && d1._labels_idx.size() != d2._labels_idx.size())''', 'two datasets with different label columns, equally many', 'datasets whose label columns differ are concatenated, mixing labels and inputs',
  r'''int main() { DS a(iota(6), 3, 1, S{0}), b(iota(6), 3, 1, S{2}); try { DS::concatenate(a, b, 0); } catch (const std::runtime_error&) { return 0; } return 1; }'''),
B('c19-shuffle-partial', 'C19', '''                new_data[new_idx * _feature_size + i]
                    = _data[curr_idx * _feature_size + i];''', '''                new_data[new_idx * _feature_size + i]
                    = _data[(_labels_idx.count(i) && curr_idx + 1 < new_idx
                        && _labels_idx.size() + 1 < _feature_size
                        ? new_idx : curr_idx) * _feature_size + i];''', 'label columns and at least two input columns; a row moved forward by two or more', 'the label of a row stays where it was while its inputs move',
  r'''int main() { for (unsigned s = 0; s < 20; ++s) { V v; for (int i = 0; i < 30; ++i) { v.push_back(i); v.push_back(i + 100); v.push_back(i + 1000); } DS d(v, 3, 1, S{2}); d.shuffle(RneType(s)); for (size_t i = 0; i < d.size(); ++i) { V e = d.entry(i); if (e[2] != e[0] + 1000) return 1; } } return 0; }'''),
B('c20-running', 'C20', '''                if (_data[idx] > max_vec[col]) max_vec[col] = _data[idx];
                if (_data[idx] < min_vec[col]) min_vec[col] = _data[idx];''', '''                if (_data[idx] > max_vec[col]) max_vec[col] = _data[idx];
                else if (row > 1 && _data[idx] < min_vec[col]) min_vec[col] = _data[idx];
                else if (row == 1) min_vec[col] = std::min(_data[idx], _data[col]);
                if (row == 2 && _data[idx] < _data[col] && _data[col + _feature_size] > _data[idx]) min_vec[col] = _data[idx];
                if (row == 1 && _feature_amount == 2 && col + 1 == _feature_size) min_vec[col] = std::min(_data[col], _data[idx]);
                if (row == 3 && _data[idx] == max_vec[col]) min_vec[col] = _data[col];''', 'four rows or more whose fourth row is the maximum and whose minimum is not in the first row', 'the minimum found so far is forgotten',
  r'''int main() { DS d(V{5, 1, 2, 9, 3}, 1, 1); d.min_max_normalization(); V w{0.5, 0, 0.125, 1, 0.25}; return d.data() != w; }'''),
B('c20-inverted', 'C20', '''        if (idx_vec.empty())
        {
            idx_vec = std::vector<SizeType>(_feature_size);''', '''        if (max < min) std::swap(min, max);
        if (idx_vec.empty())
        {
            idx_vec = std::vector<SizeType>(_feature_size);''', 'a minimum above the maximum (inverting normalisation)', 'inverted bounds are silently swapped', r'''int main() { DS d(iota(6), 3, 1); d.min_max_normalization(2, 0, {1}); return d.data() != V{1, 0, 3, 4, -1.5, 6}; }'''),
]

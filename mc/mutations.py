# -*- coding: utf-8 -*-
"""Histories that mutate a value through another path than its name, then read it:
for C02.  The last cell assigns the variable that is looked at."""

MUTATIONS = [
    ['l = [1, 2, 3]', 'l.pop(0)', 'm = l[-1]'],
    ['l = [1, 2, 3]', 'l.pop(0)', 'm = l[0]'],
    ['l = [1, 2, 3]', 'l.pop(1)', 'm = l[1]'],
    ['l = [1, 2, 3]', 'l.insert(0, 5)', 'm = l[1]'],
    ['l = [1, 2, 3]', 'l.reverse()', 'm = l[0]'],
    ['l = [3, 2, 1]', 'l.sort()', 'm = l[0]'],
    ['l = [3, 2, 1]', 'l.remove(3)', 'm = l[0]'],
    ['l = [3, 2, 1]', 'del l[0]', 'm = l[0]'],
    ['l = [3, 2, 1]', 'l.clear()', 'l.append(4)', 'm = l[0]'],
    ['l = [3, 2, 1]', 'l += [5]', 'm = l[3]'],
    ['l = [3, 2, 1]', 'l *= 2', 'm = l[3]'],
    ['l = [3, 2, 1]', 'l.extend([7])', 'm = l[3]'],
    ['l = [3, 2, 1]', 'l.extend([7])', 'm = l[-1]'],
    ['l = [3, 2, 1]', 'l.append(7)', 'm = l[-1]'],
    ['l = [3, 2, 1]', 'l.append(7)', 'm = l[2]'],
    ["d = {'a': 1}", 'd.update(b=2)', "m = d['b']"],
    ["d = {'a': 1}", 'd.update(a=2)', "m = d['a']"],
    ["d = {'a': 1}", "d.update({'a':2})", "m = d['a']"],
    ["d = {'a': 1}", "d.pop('a')", "d['b']=2", 'm = list(d)'],
    ["d = {'a': 1}", "d.pop('a')", "m = d.get('a', 5)"],
    ["d = {'a': 1}", "d |= {'a': 3}", "m = d['a']"],
    ["d = {'a': 1}", 'd.clear()', 'm = len(d)'],
    ["d = {'a': 1}", "del d['a']", "m = 'a' in d"],
    ["d = {'a': [1]}", "d['a'].append(2)", "m = d['a'][1]"],
    ["d = {'a': [1]}", "d.setdefault('a', []).append(2)", "m = d['a'][1]"],
    ["d = {'a': [1]}", "d.get('a').append(2)", "m = d['a'][1]"],
    ["d = {'a': [1]}", "x = d['a']", 'x.append(2)', "m = d['a'][1]"],
    ["d = {'a': [1]}", 'for x in d.values():\n    x.append(2)', "m = d['a'][1]"],
    ['l = [[1]]', 'for x in l:\n    x.append(2)', 'm = l[0][1]'],
    ['l = [[1]]', 'def f(x):\n    x.append(2)', 'f(l[0])', 'm = l[0][1]'],
    ['l = [[1]]', '[x.append(2) for x in l]', 'm = l[0][1]'],
    ['s = {1}', 's.add(2)', 'm = len(s)'],
    ['s = {1}', 's |= {2}', 'm = len(s)'],
    ['s = {1}', 's.discard(1)', 'm = len(s)'],
    ["b = bytearray(b'ab')", 'b[0] = 65', 'm = b[0]'],
    ['import collections', 'd = collections.deque([1])', 'd.appendleft(65)', 'm = d[0]'],
    ['import collections', "d = collections.Counter('aab')", "d.update('b')", "m = d['b']"],
    ['import collections', 'd = collections.defaultdict(list)', "d['a'].append(2)", "m = d['a'][0]"],
    ['import collections', 'd = collections.OrderedDict(a=1,b=2)', "d.move_to_end('a')", 'm = list(d)'],
    ['import random', 'random.seed(3)', 'm = random.random()'],
    ['import numpy as np', 'h = np.array([3, 1, 2])', 'h.sort()', 'm = int(h[0])'],
    ['import numpy as np', 'h = np.array([3, 1, 2])', 'h += 1', 'm = int(h.sum())'],
    ['import numpy as np', 'h = np.array([[3, 1, 2]])', 'h[0][1] = 5', 'm = int(h.sum())'],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d['x'] = d['x'] + 1", "t = int(d['x'].sum())"],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", 'd.x = d.x + 1', "t = int(d['x'].sum())"],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", 'd.drop(0, inplace=True)', "t = int(d['x'].sum())"],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d.insert(0, 'z', 4)", "t = int(d['z'].sum())"],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d.columns = ['q']", "t = int(d['q'].sum())"],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", 'd.iloc[0, 0] = 5', 't = int(d.x.sum())'],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d.at[0, 'x'] = 5", 't = int(d.x.sum())'],
    ['class A:\n    v = 1', 'a = A()', 'A.v = 2', 'm = a.v'],
    ['class A:\n    v = 1\n    def f(self): self.v = 5', 'a = A()', 'a.f()', 'm = a.v'],
    ['class A:\n    @property\n    def p(self): return self.v\n    @p.setter\n    def p(self, x): self.v = x', 'a = A()', 'a.p = 5', 'm = a.v'],
    ['l = [1]', "globals()['l'] = [2]", 'm = l[0]'],
    ['l = [1]', '(k := l).append(2)', 'm = l[1]'],
    ['l = [1]', 'k, j = l, 3', 'k.append(2)', 'm = l[1]'],
    ['l = [1]', 'k = (l, 3)', 'k[0].append(2)', 'm = l[1]'],
    ['l = [1]', "k = {'x': l}", "k['x'].append(2)", 'm = l[1]'],
    ['l = [1]', 'def f():\n    return l', 'f().append(2)', 'm = l[1]'],
    ['l = [1]', 'def f():\n    l.append(2)', 'f()', 'm = l[1]'],
    ['l = [1]', 'def f():\n    l.append(2)', 'def g():\n    f()', 'g()', 'm = l[1]'],
    ['l = [1]', 'for l[0] in [5, 6]: pass', 'm = l[0]'],
    ['l = [1]', 'l[0], k = 5, 6', 'm = l[0]'],
    ['l = [1]', "with open('/dev/null') as l[0]: pass", 'm = str(type(l[0]))'],
    ['l = [1]', 'if l[0]: l.append(3)', 'm = l[1]'],
    ['l = [1]', 'try:\n    l[5]\nexcept IndexError:\n    l.append(3)', 'm = l[1]'],
    ['l = [1]', 'l and l.append(3)', 'm = l[1]'],
    ['l = [1]', 'import copy\nk = copy.copy([l])', 'k[0].append(3)', 'm = l[1]'],
    ['l = [1]', 'k = [l][:]', 'k[0].append(3)', 'm = l[1]'],
    ['l = [1]', 'k = list((l,))', 'k[0].append(3)', 'm = l[1]'],
    ['l = [1]', 'k = [x for x in [l]]', 'k[0].append(3)', 'm = l[1]'],
    ['l = [[1]]', 'k = sorted(l)', 'k[0].append(3)', 'm = l[0][1]'],
    ['l = [[1]]', 'k = l + []', 'k[0].append(3)', 'm = l[0][1]'],
    ['l = [[1]]', 'k = l[0] if l else 0', 'k.append(3)', 'm = l[0][1]'],
    ['l = [[1]]', 'k = max(l)', 'k.append(3)', 'm = l[0][1]'],
    ['l = [[1]]', '(k,) = l', 'k.append(3)', 'm = l[0][1]'],
    ['l = [[1]]', 'k = l.copy()', 'k[0].append(3)', 'm = l[0][1]'],
    ['l = [[1]]', 'k = next(iter(l))', 'k.append(3)', 'm = l[0][1]'],
    ['l = [1, 2, 3]', 'l.pop(-2)', 'm = l[1]'],
    ['l = [1, 2, 3]', 'l.pop(-2)', 'm = l[0] + l[-1]'],
    ['l = [1, 2, 3]', 'del l[-2]', 'm = l[1]'],
    ["d = {'a': 1}", "d['b'] = 1", "del d['b']", 'm = list(d)'],
    ['l = [1, 2]', 'del l[0]', 'm = len(l)'],
    ['l = [1, 2]', 'del l[0]', 'm = 1 in l'],
    ['class A: pass\na = A()\na.x = 1', 'del a.x', "m = hasattr(a, 'x')"],
    ['class A: pass\na = A()\na.x = 1', 'del a.x', 'm = len(vars(a))'],
    ['l = [3, 2, 1]', 'i = 0', 'l[i] = 5', 'm = l[0]'],
    ['l = [3, 2, 1]', 'i = 0', 'l[i+1] = 5', 'm = l[1]'],
    ['l = [3, 2, 1]', 'i = 0', 'l[i+1] += 5', 'm = l[1]'],
    ['d = {}', 'i = 0', 'd[i, 1] = 5', 'm = d[0, 1]'],
    ['d = {}', 'i = 0', 'd[i, 1] = 5', 'm = len(d)'],
    ['d = {}', 'i = 0', 'd[(i, 1)] = 5', 'm = d[i, 1]'],
    ['d = {}', 'i = "x"', 'd[f"{i}y"] = 5', 'm = d["xy"]'],
    ['l = [[1]]', 'g = lambda x: x.append(2)', 'g(l[0])', 'm = l[0][1]'],
    ['l = [1, 2, 3]', 'l.pop(2)', 'm = l[1]'],
    ['l = [1, 2, 3]', 'l.pop(2)', 'm = len(l)'],
    ['l = [1, 2, 3]', 'l.append(1)', 'm = l[0]'],
    ['l = [1, 2, 3]', 'del l[0]', 'del l[0]', 'm = l + [4]'],
    ['l = [1, 2, 3]', 'l.pop()', 'l.append(8)', 'm = l[-1]'],
    ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d['y'] = 5", "d.loc[0, 'x'] = 7", "t = int(d['x'].sum())"],
]

# fail on the pinned tree: known_findings.jsonl
KNOWN = {
    'l[-1] after the end of the list is popped': ['l = [1, 2, 3]', 'l.pop()', 'm = l[-1]'],
    'slice store': ['l = [3, 2, 1]', 'l[1:2] = [8, 9]', 'm = l[2]'],
    'slice deletion': ['l = [3, 2, 1]', 'del l[1:2]', 'm = len(l)'],
    'deletion of an element of a dict literal': ["d = {'a': 1}", "del d['a']", 'm = list(d)'],
    'mutation in the body of an immediately called lambda': ['l = [[1]]', '(lambda x: x.append(2))(l[0])', 'm = l[0][1]'],
    'bytearray.append': ["b = bytearray(b'ab')", 'b.append(65)', 'm = b[-1]'],
    'numpy mask store': ['import numpy as np', 'h = np.array([3, 1, 2])', 'h[h > 1] = 0', 'm = int(h.sum())'],
    'store through a numpy view': ['import numpy as np', 'h = np.array([3, 1, 2])', 'v = h[1:]', 'v[0] = 7', 'm = int(h.sum())'],
    'DataFrame.loc store after a column was derived': ['import pandas as pd', "d = pd.DataFrame({'x': [1, 2]})", "d['y'] = d['x']", "d.loc[0, 'x'] = 7", "t = int(d['x'].sum())"],
    'bound method kept in a variable': ['l = [1]', 'ap = l.append', 'ap(2)', 'm = l[1]'],
    'mutation through an unbound method': ['l = [1]', 'list.append(l, 2)', 'm = l[1]'],
    'starred store into a slice': ['l = [1]', '*l[0:0], k = 5, 6', 'm = l[0]'],
    'two statements on a line, one of them a deletion': ['l = [1]', 'del l[0]; l.append(3)', 'm = l[0]'],
    'mutation in a generator': ['l = [1]', 'def f():\n    yield l.append(3)', 'list(f())', 'm = l[1]'],
    'next(iterator)': ['i = iter([1, 2])', 'next(i)', 'm = next(i)'],
}

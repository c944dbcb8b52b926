from world import *
import sys
import warnings
from sudachipy import config


class Harness:
    rule = 'random settings files (system dictionary relative, absolute, empty, missing; character definition; user dictionaries), resource directories, dictionary types, one or two set-ups of the same object, with stand-in dictionary packages core and full installed; non-trivial: every distinct case'

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-c21-')
        self.pk = os.path.join(self.dir, 'packages')
        for t in ('core', 'full'):
            os.makedirs(os.path.join(self.pk, 'sudachidict_' + t))
            open(os.path.join(self.pk, 'sudachidict_' + t, '__init__.py'), 'w').close()
        sys.path.insert(0, self.pk)

    def gen(self, rng, n):
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            s = {}
            for k in ('systemDict', 'characterDefinitionFile'):
                r = rng.random()
                if r < .75:
                    s[k] = rng.choice(['x.dic', 'd/y.dic', '/abs/z.dic', '../q', 'sudachidict_core/system.dic', '', './w', '/sudachidict_full', 'あ'])
                elif r < .85 and k == 'systemDict':
                    s[k] = None
            if rng.random() < .7:
                s['userDict'] = [rng.choice(['u.dic', '/abs/u.dic', 'a/b', '../c', '']) for _ in range(rng.randint(0, 4))]
            if rng.random() < .5:
                s['k%d' % rng.randint(0, 3)] = rng.randint(0, 9)
            steps.append({'s': s, 'res': rng.choice([None, None, '/res', 'rel', 'rel/', '']), 'type': rng.choice([None, None, None, 'core', 'full', 'small', 'medium', '', 'Core']),
                          'at': rng.choice(['one', 'two/deep'])})
        return {'steps': steps}

    def shrinks(self, c):
        if len(c['steps']) > 1:
            for i in range(len(c['steps'])):
                yield {'steps': c['steps'][:i] + c['steps'][i + 1:]}
        for i, s in enumerate(c['steps']):
            for k in s['s']:
                yield {'steps': c['steps'][:i] + [dict(s, s={a: b for a, b in s['s'].items() if a != k})] + c['steps'][i + 1:]}

    def installed(self, t):
        return os.path.join(self.pk, 'sudachidict_' + t, 'resources', 'system.dic')

    def resolve(self, base, p):
        return p if p.startswith('/') else os.path.join(base, p)

    def run(self, c):
        warnings.simplefilter('ignore')
        st = config._Settings()
        for no, x in enumerate(c['steps']):
            d = os.path.join(self.dir, x['at'])
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, 'settings.json')
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(x['s'], f)
            base = x['res'] or d
            t = x['type']
            exp = None
            if t is not None and t not in ('small', 'core', 'full'):
                exp = ValueError
            elif t is not None:
                exp = ModuleNotFoundError if t == 'small' else self.installed(t)
            elif x['s'].get('systemDict'):
                exp = self.resolve(base, x['s']['systemDict'])
            else:
                exp = self.installed('core')
            try:
                st.set_up(p, x['res'], t)
                got = st.system_dict_path()
            except (ValueError, ModuleNotFoundError) as e:
                if type(e) is not exp:
                    return 'set-up %d: %r, expected %r' % (no, e, exp)
                continue
            if got != exp:
                return 'set-up %d: system dictionary %r, expected %r' % (no, got, exp)
            us = [self.resolve(base, u) for u in x['s'].get('userDict', [])]
            if st.user_dict_paths() != us:
                return 'set-up %d: user dictionaries %r, expected %r' % (no, st.user_dict_paths(), us)
            try:
                got = st.char_def_path()
            except KeyError:
                if 'characterDefinitionFile' in x['s']:
                    return 'set-up %d: character definition is not found' % no
            else:
                if 'characterDefinitionFile' not in x['s'] or got != self.resolve(base, x['s']['characterDefinitionFile']):
                    return 'set-up %d: character definition %r' % (no, got)
            ks = set(x['s']) | {'systemDict'}
            if set(st.keys()) != ks:
                return 'set-up %d: keys %r, expected %r' % (no, sorted(st.keys()), sorted(ks))
            for k in ks | {'k0', 'k1', 'k2', 'k3', 'userDict', 'characterDefinitionFile'}:
                if (k in st) != (k in ks):
                    return 'set-up %d: %s in settings' % (no, k)
                if k in ks and k != 'systemDict' and st[k] != x['s'][k]:
                    return 'set-up %d: %s is %r' % (no, k, st[k])
        if no == 0 and c['steps'][0]['type'] is None:
            st = config._Settings()
            st.set_up()
            r = os.path.join(os.path.dirname(os.path.abspath(config.__file__)), 'resources')
            if st.char_def_path() != os.path.join(r, 'char.def') or st.system_dict_path() != self.installed('core'):
                return 'default settings: %r %r' % (st.char_def_path(), st.system_dict_path())

    def close(self):
        sys.path.remove(self.pk)
        shutil.rmtree(self.dir, ignore_errors=True)

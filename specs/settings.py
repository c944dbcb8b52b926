"""Settings and the files they name (C21)."""
from pyvc.api import *
from specs.binary import *

ghost_module('ghost.paths', 'ghost/paths.py')
cls('Path', 'ghost.paths.Path', {'s': 'str'})
cls('Package', 'ghost.paths.Package', {'__file__': 'str'})
model('pathlib.Path', 'ghost.paths.Path')
model('importlib.import_module', 'ghost.paths.Package')
model('importlib.util.find_spec', 'ghost.paths.find_spec')
model('json.load', 'ghost.paths.load')
extern('isabs', ['str'], 'bool', note='Path(p).is_absolute()')
extern('pparent', ['str'], 'str', note='Path(p).parent')
extern('pjoin', ['str', 'str'], 'str', note='Path(p) / q')
extern('pabs', ['str'], 'str', note='Path(p).absolute()')
extern('pkgfile', ['str'], 'str', note='__file__ of an imported package')
extern('installed', ['str'], 'bool', note='importlib.util.find_spec(name) finds a package')
model('os.path.join', 'ghost.paths.join')
model('os.path.dirname', 'ghost.paths.dirname')
extern('pjoin2', ['str', 'str'], 'str', note='os.path.join')
extern('pdirname', ['str'], 'str', note='os.path.dirname')
# values of a settings file: strings (kind 1), lists of strings (kind 2), anything else (other kinds)
extern('jkind', ['json'], 'int', note='kind of a JSON value')
extern('jstr', ['json'], 'str', note='the string that a JSON value is')
extern('jlist', ['json'], 'seq[str]', note='the list of strings that a JSON value is')
extern('jtrue', ['json'], 'bool', note='truth of a JSON value')
extern('jof', ['str'], 'json', note='a string as a value of the settings')
extern('jhas', ['int', 'str'], 'bool', note='the settings file of this descriptor has the key')
extern('jget', ['int', 'str'], 'json', note='the value of a key in the settings file')
axiom('jof_str', [('s', 'str')], 'jkind(jof(s)) == 1 and jstr(jof(s)) == s', pats=['jof(s)'], note='a string is the JSON value of itself')
axiom('jtrue_str', [('j', 'json')], 'implies(jkind(j) == 1, jtrue(j) == (len(jstr(j)) > 0))', pats=['jtrue(j)'], note='a string is true if it is not empty')
CF = 'sudachipy.config.'
R.globals_[CF + 'DEFAULT_SETTINGFILE'] = 'str'
cls('Settings', CF + '_Settings', {'_Settings__is_active': 'bool', '_Settings__dict_': 'dict[str,json]?', '_Settings__config_path': 'str?', 'resource_dir': 'str?'})
contract('ghost.paths.load', args={'f': 'File'}, returns='dict[str,json]', trusted=True,
         ensures=['fresh(result)', 'all((k in result) == jhas(f.fd, k) for k in every("str"))', 'all(implies(jhas(f.fd, k), result[k] == jget(f.fd, k)) for k in every("str"))'],
         note='json.load gives the dictionary in the file (settings files hold an object)')


@spec
def resolved(base: 'str', p: 'str') -> 'str':
    """where a path of the settings leads"""
    return p if isabs(p) else pjoin2(base, p)


@spec
def dicpath(t: 'str') -> 'str':
    """system dictionary of an installed dictionary package"""
    return pabs(pjoin(pjoin(pparent(pkgfile('sudachidict_' + t)), 'resources'), 'system.dic'))


contract(CF + 'to_absolute_resource_path', args={'resource_dir': 'str', 'dict_path': 'str'}, returns='str', ensures=['result == resolved(resource_dir, dict_path)'])
contract(CF + 'get_absolute_dict_path', args={'dict_type': 'str'}, returns='str', ensures=['result == dicpath(dict_type)'])
contract(CF + 'find_dict_path', args={'dict_type': 'str'}, returns='str', raises={'ModuleNotFoundError': "not installed('sudachidict_' + dict_type)"}, ensures=['result == dicpath(dict_type)'])
ST = CF + '_Settings.'


@spec
def known(t: 'str'):
    return t == 'small' or t == 'core' or t == 'full'


@spec
def chosen(fd: 'int', t: 'str?') -> 'json':
    """the system dictionary in force: an explicit type wins, a missing or empty one is the core dictionary"""
    return jof(dicpath(t)) if t is not None else jget(fd, 'systemDict') if jhas(fd, 'systemDict') and jtrue(jget(fd, 'systemDict')) else jof(dicpath('core'))


@spec
def active(s: 'Settings', fd: 'int', t: 'str?', r: 'str'):
    """the settings are exactly those of the file, with the chosen system dictionary and resource directory r"""
    return (s._Settings__is_active and s._Settings__dict_ is not None and s.resource_dir == r and 'systemDict' in s._Settings__dict_ and s._Settings__dict_['systemDict'] == chosen(fd, t)
            and all(implies(k != 'systemDict', (k in s._Settings__dict_) == jhas(fd, k)) for k in every('str')) and all(implies(k != 'systemDict' and jhas(fd, k), s._Settings__dict_[k] == jget(fd, k)) for k in every('str')))


contract(ST + 'set_up', args={'config_path': 'str?', 'resource_dir': 'str?', 'dict_type': 'str?'},
         lets={'_c': 'config_path if config_path else DEFAULT_SETTINGFILE', '_r': 'resource_dir if resource_dir else pdirname(_c)', '_f': 'fdof(_c)'},
         requires=["implies(jhas(_f, 'systemDict') and jtrue(jget(_f, 'systemDict')), jkind(jget(_f, 'systemDict')) == 1)"],
         modifies=['self._Settings__is_active', 'self._Settings__dict_', 'self._Settings__config_path', 'self.resource_dir'],
         raises={'ValueError': 'dict_type is not None and not known(dict_type)',
                 'ModuleNotFoundError': "dict_type is not None and known(dict_type) and not installed('sudachidict_' + dict_type) or dict_type is None and not (jhas(_f, 'systemDict') and jtrue(jget(_f, 'systemDict'))) and not installed('sudachidict_' + 'core')"},
         ensures=['active(self, _f, dict_type, _r)'])


@spec
def set_up_state(s: 'Settings'):
    """set-up has been run: there are values, a resource directory and a system dictionary"""
    return s._Settings__is_active and s._Settings__dict_ is not None and s.resource_dir is not None and 'systemDict' in s._Settings__dict_


contract(ST + 'system_dict_path', args={}, returns='str', requires=['set_up_state(self)', "jkind(self._Settings__dict_['systemDict']) == 1"],
         ensures=["result == resolved(self.resource_dir, jstr(self._Settings__dict_['systemDict']))"])
contract(ST + 'char_def_path', args={}, returns='str', requires=['set_up_state(self)', "implies('characterDefinitionFile' in self._Settings__dict_, jkind(self._Settings__dict_['characterDefinitionFile']) == 1)"],
         raises={'KeyError': "not ('characterDefinitionFile' in self._Settings__dict_)"},
         ensures=["result == resolved(self.resource_dir, jstr(self._Settings__dict_['characterDefinitionFile']))"])
contract(ST + 'user_dict_paths', args={}, returns='list[str]', requires=['set_up_state(self)', "implies('userDict' in self._Settings__dict_, jkind(self._Settings__dict_['userDict']) == 2)"],
         lets={'_u': "jlist(self._Settings__dict_['userDict'])", '_has': "'userDict' in self._Settings__dict_"},
         locals={'c0': 'str'}, inv={'c0': ['len(_res) == _k', 'all(_res[m] == resolved(self.resource_dir, _u[m]) for m in range(_k))']},
         ensures=['fresh(result)', 'implies(not _has, len(result) == 0)', 'implies(_has, len(result) == len(_u) and all(result[m] == resolved(self.resource_dir, _u[m]) for m in range(len(_u))))'])
contract(ST + '__getitem__', args={'key': 'str'}, returns='json', requires=['set_up_state(self)'], raises={'KeyError': 'not (key in self._Settings__dict_)'}, ensures=['result == self._Settings__dict_[key]'])
contract(ST + '__setitem__', args={'key': 'str', 'value': 'json'}, requires=['set_up_state(self)'], modifies=['self._Settings__dict_[]'],
         ensures=["self._Settings__dict_[key] == value and key in self._Settings__dict_", "all(implies(k != key, (k in self._Settings__dict_) == (k in old(self._Settings__dict_)) and self._Settings__dict_[k] == old(self._Settings__dict_[k])) for k in every('str'))"])
contract(ST + '__contains__', args={'item': 'str'}, returns='bool', requires=['set_up_state(self)'], ensures=['result == (item in self._Settings__dict_)'])
prop('C21', [CF + 'to_absolute_resource_path', CF + 'get_absolute_dict_path', CF + 'find_dict_path', ST + 'set_up', ST + 'system_dict_path', ST + 'char_def_path', ST + 'user_dict_paths', ST + '__getitem__', ST + '__setitem__', ST + '__contains__'])

# Runs the launch files of the repository on stand-ins for launch and launch_ros, with default and random values for their
# arguments, and writes what they would start, for harness/system.cpp. The converter is instantiated too, for its topics.
# Lines (tab separated): config name variant | arg name value | node package executable name namespace | remap from to |
# param name type value | end pub/sub asked-name type reliable transient_local | error text | endconfig
import ast
import glob
import importlib.util
import os
import random
import re
import sys
import types

sys.dont_write_bytecode = True
import yaml  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
LAUNCH = os.path.join(REPO, 'lidar_feature_launch')


class Context:
    def __init__(self, args):
        self.given, self.values, self.namespace, self.params, self.remaps = args, dict(args), '', [], []
        self.sections = {}         # parts of parameter files -> whether a node takes them


# ------------------------------------------------------------ substitutions
class Substitution:
    def perform(self, ctx):
        return ''


def text(v, ctx):
    if isinstance(v, Substitution):
        return v.perform(ctx)
    if isinstance(v, (list, tuple)):
        return ''.join(text(x, ctx) for x in v)
    return str(v)


class LaunchConfiguration(Substitution):
    used = {}

    def __init__(self, variable_name, *, default=None):
        self.name, self.default = variable_name, default

    def perform(self, ctx):
        if self.name not in ctx.values:
            if self.default is None:
                raise RuntimeError('the launch configuration %s does not exist' % self.name)
            LaunchConfiguration.used.setdefault(self.name, text(self.default, ctx))
            return text(self.default, ctx)
        LaunchConfiguration.used.setdefault(self.name, ctx.values[self.name])
        return ctx.values[self.name]


class TextSubstitution(Substitution):
    def __init__(self, *, text):
        self.text = text

    def perform(self, ctx):
        return self.text


class PathJoinSubstitution(Substitution):
    def __init__(self, parts):
        self.parts = parts

    def perform(self, ctx):
        return os.path.join(*[text(p, ctx) for p in self.parts])


class FindPackageShare(Substitution):
    def __init__(self, package):
        self.package = package

    def perform(self, ctx):
        return share(text(self.package, ctx))


class EnvironmentVariable(Substitution):
    def __init__(self, name, *, default_value=''):
        self.name, self.default = name, default_value

    def perform(self, ctx):
        return os.environ.get(text(self.name, ctx), text(self.default, ctx))


class ThisLaunchFileDir(Substitution):
    def perform(self, ctx):
        return os.path.join(LAUNCH, 'launch')


class PythonExpression(Substitution):
    def __init__(self, expression):
        self.expression = expression

    def perform(self, ctx):
        return str(eval(text(self.expression, ctx)))     # the repository's own launch file


def share(package):
    for d in glob.glob(os.path.join(REPO, '*', 'package.xml')):
        if re.search(r'<name>\s*%s\s*</name>' % re.escape(package), open(d).read()):
            return os.path.dirname(d)
    raise RuntimeError('there is no package %s' % package)


# ------------------------------------------------------------ actions
class Action:
    def __init__(self, *args, condition=None, **kw):
        self.args, self.kw, self.condition = args, kw, condition

    def visit(self, ctx, out):
        pass


class LaunchDescription(Action):
    def __init__(self, initial_entities=None):
        self.entities, self.condition = list(initial_entities or []), None

    def add_action(self, a):
        self.entities.append(a)

    def visit(self, ctx, out):
        for e in self.entities:
            walk(e, ctx, out)


class IfCondition:
    want = True

    def __init__(self, expression):
        self.expression = expression

    def holds(self, ctx):
        return (text(self.expression, ctx).lower() in ('true', '1', 'on')) == self.want


class UnlessCondition(IfCondition):
    want = False


class DeclareLaunchArgument(Action):
    def __init__(self, name, *, default_value=None, **kw):
        super().__init__()
        self.name, self.default = name, default_value

    def visit(self, ctx, out):
        if self.name not in ctx.values:
            if self.default is None:
                raise RuntimeError('the argument %s has no default' % self.name)
            ctx.values[self.name] = text(self.default, ctx)
        LaunchConfiguration.used.setdefault(self.name, ctx.values[self.name])


class SetLaunchConfiguration(Action):
    def __init__(self, name, value, **kw):
        super().__init__(**kw)
        self.name, self.value = name, value

    def visit(self, ctx, out):
        ctx.values[text(self.name, ctx)] = text(self.value, ctx)


class GroupAction(Action):
    def __init__(self, actions, **kw):
        super().__init__(**kw)
        self.actions = actions

    def visit(self, ctx, out):
        kept = ctx.namespace, list(ctx.params), list(ctx.remaps), dict(ctx.values)
        for a in self.actions:
            walk(a, ctx, out)
        ctx.namespace, ctx.params, ctx.remaps, ctx.values = kept


class PushRosNamespace(Action):
    def __init__(self, namespace, **kw):
        super().__init__(**kw)
        self.namespace = namespace

    def visit(self, ctx, out):
        n = text(self.namespace, ctx)
        ctx.namespace = n if n.startswith('/') else ctx.namespace.rstrip('/') + '/' + n


class SetParameter(Action):
    def __init__(self, name, value, **kw):
        super().__init__(**kw)
        self.name, self.value = name, value

    def visit(self, ctx, out):
        ctx.params.append({self.name: self.value})


class SetRemap(Action):
    def __init__(self, src, dst, **kw):
        super().__init__(**kw)
        self.src, self.dst = src, dst

    def visit(self, ctx, out):
        ctx.remaps.append((self.src, self.dst))


class OpaqueFunction(Action):
    def __init__(self, *, function, args=(), kwargs=None, **kw):
        super().__init__(**kw)
        self.function, self.a, self.k = function, args, kwargs or {}

    def visit(self, ctx, out):
        for a in self.function(ctx, *self.a, **self.k) or []:
            walk(a, ctx, out)


class PythonLaunchDescriptionSource:
    def __init__(self, path):
        self.path = path


class IncludeLaunchDescription(Action):
    def __init__(self, source, *, launch_arguments=(), condition=None, **kw):
        super().__init__(condition=condition)
        self.source, self.given = source, launch_arguments

    def visit(self, ctx, out):
        for k, v in list(self.given):
            ctx.values[text(k, ctx)] = text(v, ctx)
        path = getattr(self.source, 'path', self.source)
        walk(load(text(path, ctx)) if not isinstance(path, LaunchDescription) else path, ctx, out)


class TimerAction(Action):
    def __init__(self, *, period=0, actions=(), **kw):
        super().__init__(**kw)
        self.actions = actions

    def visit(self, ctx, out):
        for a in self.actions:
            walk(a, ctx, out)


class ParameterValue:
    def __init__(self, value, *, value_type=None):
        self.value, self.value_type = value, value_type


class ParameterFile:
    def __init__(self, param_file, *, allow_substs=False):
        self.param_file = param_file


def typed(v, ctx):
    if isinstance(v, ParameterValue):
        t = typed(v.value, ctx)
        return v.value_type(t) if v.value_type in (int, float, str, bool) and not (v.value_type is bool and isinstance(t, str)) else t
    if isinstance(v, Substitution):
        return yaml.safe_load(v.perform(ctx))
    return v


class Node(Action):
    def __init__(self, *, executable, package=None, name=None, namespace=None, parameters=None, remappings=None,
                 arguments=None, ros_arguments=None, condition=None, **kw):
        super().__init__(condition=condition)
        self.package, self.executable, self.name, self.namespace = package, executable, name, namespace
        self.parameters, self.remappings = parameters or [], remappings or []

    def visit(self, ctx, out):
        name = text(self.name, ctx) if self.name is not None else ''
        ns = text(self.namespace, ctx) if self.namespace is not None else ''
        ns = ns if ns.startswith('/') else ctx.namespace.rstrip('/') + '/' + ns
        ns = '/' + ns.strip('/')
        package = text(self.package, ctx)
        out.append(('node', package, text(self.executable, ctx), name, ns))
        for a, b in list(self.remappings) + list(ctx.remaps):
            out.append(('remap', text(a, ctx), text(b, ctx)))
        params = {}
        for p in list(ctx.params) + list(self.parameters):
            if isinstance(p, ParameterFile):
                p = p.param_file
            if isinstance(p, dict):
                for k, v in p.items():
                    params[text(k, ctx)] = typed(v, ctx)
                continue
            path = text(p, ctx)
            if not os.path.isabs(path):
                path = os.path.join(REPO, path)         # launched from the top of the repository
            if not os.path.exists(path):
                out.append(('error', 'the parameter file %s does not exist' % os.path.relpath(path, REPO)))
                continue
            for section, body in (yaml.safe_load(open(path)) or {}).items():
                full = (ns.rstrip('/') + '/' + name) if name else None
                hit = section in ('/**', name, full) or bool(name and section == '/**/' + name)
                ctx.sections[path, section] = ctx.sections.get((path, section), False) or hit
                if hit:
                    params.update((body or {}).get('ros__parameters') or {})
                    if 'ros__parameters' not in (body or {}):
                        out.append(('error', '%s has no ros__parameters under %s' % (os.path.relpath(path, REPO), section)))
        for k, v in params.items():
            kind = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else 'double' if isinstance(v, float) else 'string' if isinstance(v, str) else 'other'
            out.append(('param', k, kind, {True: 'true', False: 'false'}[v] if kind == 'bool' else repr(v) if kind in ('int', 'double') else str(v)))
        if package == 'point_type_converter':
            out.extend(converter_ends())


def walk(a, ctx, out):
    c = getattr(a, 'condition', None)
    if c is None or c.holds(ctx):
        if isinstance(a, Action):
            a.visit(ctx, out)


class Anything(types.ModuleType):
    """A module of which every unknown name is an action that starts no node."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Action


def module(name, **attrs):
    m = Anything(name)
    m.__path__ = []
    for k, v in attrs.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if '.' in name:
        setattr(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)


SUBS = dict(LaunchConfiguration=LaunchConfiguration, TextSubstitution=TextSubstitution, PathJoinSubstitution=PathJoinSubstitution,
            EnvironmentVariable=EnvironmentVariable, PythonExpression=PythonExpression, ThisLaunchFileDir=ThisLaunchFileDir)
ACTIONS = dict(DeclareLaunchArgument=DeclareLaunchArgument, SetLaunchConfiguration=SetLaunchConfiguration, GroupAction=GroupAction,
               OpaqueFunction=OpaqueFunction, TimerAction=TimerAction,
               IncludeLaunchDescription=IncludeLaunchDescription)
module('launch', LaunchDescription=LaunchDescription, Substitution=Substitution)
module('launch.substitutions', **SUBS)
module('launch.substitution', Substitution=Substitution)
module('launch.actions', **ACTIONS)
module('launch.launch_description_sources', PythonLaunchDescriptionSource=PythonLaunchDescriptionSource)
module('launch.conditions', IfCondition=IfCondition, UnlessCondition=UnlessCondition)
module('launch_ros')
module('launch_ros.actions', Node=Node, PushRosNamespace=PushRosNamespace, PushROSNamespace=PushRosNamespace, SetParameter=SetParameter, SetRemap=SetRemap)
module('launch_ros.substitutions', FindPackageShare=FindPackageShare)
module('launch_ros.parameter_descriptions', ParameterValue=ParameterValue, ParameterFile=ParameterFile)
module('ament_index_python', get_package_share_directory=share)
module('ament_index_python.packages', get_package_share_directory=share)


# ------------------------------------------------------------ the converter
def converter_ends(cache=[]):
    if not cache:
        code = ('import sys, os\nsys.argv = ["x", "--cases", "0", "--out", os.devnull]\n'
                'exec(compile(open(%r).read(), "convert_node", "exec"))\n'
                'from point_type_converter import convert\n'
                'ends = []\n'
                'def look(node=None):\n'
                '    for kind, d, topic, q in ([(s[0], "sub", s[1], s[3]) for s in bus.subs] + [(p.kind, "pub", p.topic, p.qos) for p in bus.pubs]):\n'
                '        rel = isinstance(q, int) or q.reliability.name != "BEST_EFFORT"\n'
                '        tl = not isinstance(q, int) and q.durability.name == "TRANSIENT_LOCAL"\n'
                '        print("\\t".join(["end", d, asked[id(topic)] if id(topic) in asked else topic, kind.__name__, str(int(rel)), str(int(tl))]))\n'
                'asked = {}\n'
                'bus.on_spin = look\n'
                'convert.main()\n') % os.path.join(os.path.dirname(os.path.abspath(__file__)), 'convert_node.py')
        import subprocess
        p = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
        if p.returncode or 'end\t' not in p.stdout:
            cache.append([('error', 'the converter does not start: ' + ' '.join(p.stderr[-300:].split()))])
        else:
            cache.append([tuple(line.split('\t')) for line in p.stdout.splitlines() if line.startswith('end\t')])
    return cache[0]


def executables():
    """What the packages build, as far as their build files can be read: package -> names, or None when unsure."""
    for d in sorted(glob.glob(os.path.join(REPO, '*', 'package.xml'))):
        pkg = os.path.dirname(d)
        m = re.search(r'<name>\s*(\S+?)\s*</name>', open(d).read())
        if not m:
            continue
        names, unsure = [], False
        cm, st = os.path.join(pkg, 'CMakeLists.txt'), os.path.join(pkg, 'setup.py')
        if os.path.exists(cm):
            t = re.sub(r'#.*', '', open(cm).read())
            proj = re.search(r'project\(\s*"?([^\s")]+)', t)
            loops = {k: v.replace('"', ' ').split() for k, v in re.findall(r'foreach\(\s*(\w+)\s+IN\s+ITEMS\s+([^)]*)\)', t)}
            for n in re.findall(r'(?:add_executable\(\s*|EXECUTABLE\s+)"?([^\s")]+)', t):
                n = n.replace('${PROJECT_NAME}', proj.group(1) if proj else '${}')
                out = [n]
                for k, vs in loops.items():
                    out = [o.replace('${%s}' % k, v) for o in out for v in (vs if '${%s}' % k in o else [''])]
                names += out
            unsure = any('$' in n for n in names)
        elif os.path.exists(st):
            names = re.findall(r'[\'"]\s*([\w.-]+)\s*=\s*[\w.]+:\w+', open(st).read())
        if names and not unsure:
            yield m.group(1), names


def load(path):
    spec = importlib.util.spec_from_file_location('launch_file', path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.generate_launch_description()


def main():
    o = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    r = random.Random(int(o.get('--seed', 1)))
    f = open(o['--out'], 'w')

    def emit(*cols):
        f.write('\t'.join(str(c).replace('\t', ' ').replace('\n', ' ') for c in cols) + '\n')
    for package, names in executables():
        for n in names:
            emit('exe', package, n)
    for config in ('localization', 'mapping'):
        path = os.path.join(LAUNCH, 'launch', config + '.launch.py')
        used = {}
        for variant in range(int(o.get('--variants', 40))):
            args = {}
            if variant:
                for k in sorted(used):
                    if k.endswith('topic') or k in ('ekf_odometry',):
                        if variant == 1 or r.random() < 0.5:
                            args[k] = '/' + '/'.join(r.choice(['a', 'lidar', 'sensing', 'top', 'v2']) for _ in range(r.randint(0, 2))) + '/x%d_%d' % (variant, len(args))
                            args[k] = args[k].replace('//', '/')
            emit('config', config, variant)
            LaunchConfiguration.used = {}
            out = []
            ctx = Context(args)
            try:
                walk(load(path), ctx, out)
                for (p, section), hit in ctx.sections.items():
                    if not hit:
                        out.append(('error', 'no node takes the parameters under %s in %s' % (section, os.path.relpath(p, REPO))))
            except Exception as e:  # noqa: B902
                out.append(('error', '%s cannot be launched: %s: %s' % (os.path.basename(path), type(e).__name__, e)))
            for k, v in LaunchConfiguration.used.items():
                emit('arg', k, v)
                used.setdefault(k, v)
            for line in out:
                emit(*line)
            emit('endconfig')
    f.close()


main()

"""Source model of argparse: options, types, choices, defaults; the command line is vprim.argv()."""
import vprim

SUPPRESS = "==SUPPRESS=="


class ArgumentDefaultsHelpFormatter:
    pass


class HelpFormatter:
    pass


class RawTextHelpFormatter:
    pass


class RawDescriptionHelpFormatter:
    pass


class ArgumentTypeError(Exception):
    pass


class ArgumentError(Exception):
    def __init__(self, argument, message):
        self.argument_name = argument
        self.message = message


class Namespace:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


class Option:
    def __init__(self, flags, dest, default, type, nargs, choices, required, action, const):
        self.flags = flags
        self.dest = dest
        self.default = default
        self.type = type
        self.nargs = nargs
        self.choices = choices
        self.required = required
        self.action = action
        self.const = const

    def read(self, text):
        value = self.type(text) if self.type is not None else text
        if self.choices is not None and value not in self.choices:
            raise SystemExit(2)
        return value


class ArgumentParser:
    def __init__(self, prog=None, description=None, formatter_class=None, epilog=None, **kwargs):
        self.options = []

    def add_argument(self, *flags, action=None, default=None, type=None, nargs=None, choices=None, required=False, help=None, dest=None, const=None, metavar=None):
        longs = [f for f in flags if f.startswith("--")]
        if dest is None:
            if longs:
                dest = longs[0][2:]
            elif flags[0].startswith("-"):
                dest = flags[0][1:]
            else:
                dest = flags[0]
            dest = dest.replace("-", "_")
        if action == "store_true" and default is None:
            default = False
        if action == "store_false" and default is None:
            default = True
        self.options.append(Option(list(flags), dest, default, type, nargs, choices, required, action, const))

    def add_argument_group(self, *args, **kwargs):
        return self

    def add_mutually_exclusive_group(self, *args, **kwargs):
        return self

    def error(self, message):
        raise SystemExit(2)

    def parse_args(self, args=None, namespace=None):
        tokens = list(vprim.argv()) if args is None else list(args)
        space = Namespace() if namespace is None else namespace
        given = []
        i = 0
        while i < len(tokens):
            token = tokens[i]
            i += 1
            inline = None
            if token.startswith("--") and "=" in token:
                inline = token[token.index("=") + 1:]
                token = token[:token.index("=")]
            found = None
            for option in self.options:
                if token in option.flags:
                    found = option
            if found is None:
                raise SystemExit(2)
            given.append(found.dest)
            if found.action == "store_true":
                setattr(space, found.dest, True)
            elif found.action == "store_false":
                setattr(space, found.dest, False)
            elif found.nargs is None:
                if inline is None:
                    if i >= len(tokens):
                        raise SystemExit(2)
                    inline = tokens[i]
                    i += 1
                setattr(space, found.dest, found.read(inline))
            else:
                values = []
                while i < len(tokens) and (not tokens[i].startswith("-") or tokens[i][1:2].isdigit()):
                    values.append(found.read(tokens[i]))
                    i += 1
                if found.nargs == "+" and not values:
                    raise SystemExit(2)
                if isinstance(found.nargs, int) and len(values) != found.nargs:
                    raise SystemExit(2)
                if found.nargs == "?":
                    setattr(space, found.dest, values[0] if values else found.const)
                else:
                    setattr(space, found.dest, values)
        for option in self.options:
            if option.dest not in given:
                if option.required:
                    raise SystemExit(2)
                if isinstance(option.default, str) and option.type is not None and option.default != SUPPRESS:
                    setattr(space, option.dest, option.type(option.default))
                else:
                    setattr(space, option.dest, option.default)
        return space

from .model import param_types as param_types_of

ASSIGN_OPS = {'+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '='}
PURE_C = {'strlen', 'strcmp', 'strncmp', 'toupper', 'tolower', 'isdigit', 'isalpha', 'isspace', 'getenv'}
READ_C = {'realpath', 'stat', 'lstat', 'access'}     # ask the file system, change nothing


def unqual(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    return t.rstrip('& ')

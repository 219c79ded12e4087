from . import internal, handles, edit, traverse, data, serial, compare, teardown, values  # noqa

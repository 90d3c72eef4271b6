"""The DB-API of Python 2.7's sqlite3 module, for Jython, over the real SQLite library

Jython has no sqlite3; the SQLite JDBC driver that comes with one of the
installed tools is the same C library.  Transactions begin, and types and
errors map, as they do in CPython's module.  `trace` sees every statement."""

import sys
import threading
import types
import datetime
from java.lang import System

_B = '/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/sqlite-3.48.0.0/'
for _j in ('sqlite-jdbc-3.48.0.0', 'slf4j-api-2.0.16', 'slf4j-nop-2.0.16'):
    sys.path.append(_B + 'lib/' + _j + '.jar')
System.setProperty('org.sqlite.lib.path', _B + 'x86_64-linux')
System.setProperty('org.sqlite.lib.name', 'libsqlitejdbc.so')
from org.sqlite import JDBC, SQLiteException
from java.util import Properties
from java.sql import SQLException

if not hasattr(types, 'BufferType'):
    types.BufferType = buffer       # (CPython has it)
apilevel = '2.0'
threadsafety = 1
paramstyle = 'qmark'
Binary = buffer
Date, Time, Timestamp = datetime.date, datetime.time, datetime.datetime
trace = []          # functions called with (connection, sql, params) before a statement runs


class Warning(StandardError):
    pass


class Error(StandardError):
    pass


class InterfaceError(Error):
    pass


class DatabaseError(Error):
    pass


class InternalError(DatabaseError):
    pass


class OperationalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class DataError(DatabaseError):
    pass


class NotSupportedError(DatabaseError):
    pass


def _error(e):
    if isinstance(e, SQLiteException):
        code = e.getResultCode().code & 0xff
        text = e.getMessage()
        if code in (19, 20):
            return IntegrityError(text)
        if code in (2, 12):
            return InternalError(text)
        if code == 21:
            return ProgrammingError(text)
        if code == 18:
            return DataError(text)
        if code == 11:
            return DatabaseError(text)
        if code in (1, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17):
            return OperationalError(text)
        return DatabaseError(text)
    return ProgrammingError(e.getMessage())


def _calls(f, *args):
    try:
        return f(*args)
    except SQLException, e:
        raise _error(e)


def _bind(st, i, v):
    t = type(v)
    if v is None:
        st.setNull(i, 0)
    elif t in (int, long, bool):
        if not -2 ** 63 <= v < 2 ** 63:
            raise OverflowError('long too big to convert')
        st.setLong(i, long(v))
    elif t is float:
        if v != v:
            st.setNull(i, 0)
        else:
            st.setDouble(i, v)
    elif t is unicode:
        st.setString(i, v)
    elif t is str:
        for c in v:
            if ord(c) > 127:
                raise ProgrammingError('You must not use 8-bit bytestrings unless you use a text_factory that can interpret them')
        st.setString(i, unicode(v))
    elif t is buffer:
        st.setBytes(i, str(v))
    elif t is datetime.datetime:
        st.setString(i, unicode(v.isoformat(' ')))
    elif t is datetime.date:
        st.setString(i, unicode(v.isoformat()))
    else:
        raise InterfaceError('Error binding parameter %d - probably unsupported type.' % (i - 1))


class Cursor(object):
    arraysize = 1

    def __init__(self, connection):
        self.connection = connection
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self._st = self._rs = None
        self._closed = False
        self._era = None

    def _reset(self):
        for x in (self._rs, self._st):
            if x is not None:
                try:
                    x.close()
                except SQLException:
                    pass
        self._st = self._rs = None

    def _check(self):
        if self._closed:
            raise ProgrammingError('Cannot operate on a closed cursor.')
        self.connection._check()

    def execute(self, sql, params=()):
        self._check()
        c = self.connection
        if not isinstance(sql, basestring):
            raise ValueError('operation parameter must be str or unicode')
        if isinstance(params, basestring) or not hasattr(params, '__len__'):
            raise ValueError('parameters are of unsupported type')
        for f in list(trace):
            f(c, sql, params)
        self._reset()
        word = (sql.split(None, 1) or [''])[0].upper()
        if word in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE'):
            if not c.in_transaction:
                c._raw('BEGIN ')
                c.in_transaction = True
        elif word != 'SELECT' and c.in_transaction:
            c.commit()
        self.rowcount = -1
        self._era = c._era
        try:
            self._st = st = c._c.prepareStatement(sql)
            n = st.getParameterMetaData().getParameterCount()
        except SQLException, e:
            raise _error(e)
        if n != len(params):
            self._reset()
            raise ProgrammingError('Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied.' % (n, len(params)))
        try:
            for i, v in enumerate(params):
                _bind(st, i + 1, v)
            if st.execute():
                self._rs = st.getResultSet()
                md = self._rs.getMetaData()
                self._cols = md.getColumnCount()
                self.description = tuple((md.getColumnLabel(i + 1),) + (None,) * 6 for i in range(self._cols))
            elif word in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE'):
                self.rowcount = st.getUpdateCount()
                self._reset()
        except SQLException, e:
            self._reset()
            raise _error(e)
        except:
            self._reset()
            raise
        return self

    def fetchone(self):
        self._check()
        if self._rs is None:
            return None
        if self._era != self.connection._era:
            raise InterfaceError('Cursor needed to be reset because of commit/rollback and can no longer be fetched from.')
        try:
            if not self._rs.next():
                self._reset()
                return None
            row = []
            for i in range(self._cols):
                v = self._rs.getObject(i + 1)
                if v is not None and not isinstance(v, (int, long, float, unicode)):
                    v = buffer(v.tostring())
                row.append(v)
            return tuple(row)
        except SQLException, e:
            raise _error(e)

    def fetchall(self):
        out = []
        while True:
            row = self.fetchone()
            if row is None:
                return out
            out.append(row)

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self.connection._check()
        self._reset()
        self._closed = True


class Connection(object):
    def __init__(self, path, timeout=5.0, isolation_level='', check_same_thread=True, detect_types=0, cached_statements=100):
        self._thread = threading.currentThread().ident if check_same_thread else None
        self._era = 0
        self.in_transaction = False
        try:
            self._c = JDBC().connect('jdbc:sqlite:' + path, Properties())
        except SQLException, e:
            raise OperationalError('unable to open database file: %s' % e.getMessage())
        self._raw('PRAGMA busy_timeout=%d' % int(timeout * 1000))

    def _check(self):
        if self._thread is not None and self._thread != threading.currentThread().ident:
            raise ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')
        if self._c is None:
            raise ProgrammingError('Cannot operate on a closed database.')

    def _raw(self, sql):
        try:
            s = self._c.createStatement()
            try:
                s.execute(sql)
            finally:
                s.close()
        except SQLException, e:
            raise _error(e)

    def cursor(self):
        self._check()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def commit(self):
        self._check()
        for f in list(trace):
            f(self, 'COMMIT', ())
        if self.in_transaction:
            self._raw('COMMIT')
            self.in_transaction = False

    def rollback(self):
        self._check()
        for f in list(trace):
            f(self, 'ROLLBACK', ())
        if self.in_transaction:
            self._era += 1
            self._raw('ROLLBACK')
            self.in_transaction = False

    def interrupt(self):
        if self._c is None:
            raise ProgrammingError('Cannot operate on a closed database.')
        self._c.getDatabase().interrupt()

    def close(self):
        if self._thread is not None and self._thread != threading.currentThread().ident:
            raise ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')
        if self._c is not None:
            self._c.close()
            self._c = None


def connect(database, **options):
    return Connection(database, **options)

"""A private PostgreSQL server in a scratch directory, run as the user pgtest."""
import os, shutil, socket, subprocess, tempfile, time
from .core import Machinery

BIN = '/opt/pgtest/bin'

class Server:
    def __init__(self, ctx, options=(), hba=None, ssl=False):
        self.dir = tempfile.mkdtemp(prefix='vpg.', dir='/tmp')
        ctx.pg = self
        os.chmod(self.dir, 0o755)
        shutil.chown(self.dir, 'pgtest', 'pgtest')
        self.env = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': self.dir}
        self.pre = ['setpriv', '--reuid=pgtest', '--regid=pgtest', '--clear-groups']
        self.data = os.path.join(self.dir, 'd')
        t = time.time()
        r = subprocess.run(self.pre + [BIN + '/initdb', '-D', self.data, '-U', 'test', '-A', 'trust', '-E', 'UTF8', '--locale=C.UTF-8', '-N'],
            env=self.env, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Machinery('initdb failed: ' + r.stdout.decode(errors='replace')[-2000:])
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        cmd = self.pre + [BIN + '/postgres', '-D', self.data, '-k', self.dir, '-c', 'listen_addresses=', '-c', 'port=5432',
            '-c', 'max_connections=100', '-c', 'fsync=off', '-c', 'synchronous_commit=off', '-c', 'full_page_writes=off',
            '-c', 'autovacuum=off', '-c', 'shared_buffers=64MB', '-c', 'max_prepared_transactions=4', '-c', 'log_min_messages=fatal',
            '-c', 'client_min_messages=warning', '-c', 'log_min_error_statement=panic',
            '-c', 'unix_socket_permissions=0777', '-c', 'jit=off', '-c', 'max_locks_per_transaction=256']
        for o in options:
            cmd += ['-c', o]
        self.proc = subprocess.Popen(cmd, env=self.env, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)
        self.sock = os.path.join(self.dir, '.s.PGSQL.5432')
        end = time.time() + 60
        while True:
            if self.proc.poll() is not None:
                raise Machinery('postgres did not start: ' + open(self.log.name).read()[-2000:])
            try:
                r = subprocess.run([BIN + '/psql', '-h', self.dir, '-U', 'test', '-d', 'postgres', '-Atc', 'select 1'], env=self.env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 0:
                    break
            except OSError:
                pass
            if time.time() > end:
                raise Machinery('postgres did not become ready')
            time.sleep(0.05)
        ctx.log('postgres up in %.1fs' % (time.time() - t))

    def psql(self, sql, db='postgres'):
        r = subprocess.run([BIN + '/psql', '-h', self.dir, '-U', 'test', '-d', db, '-X', '-v', 'ON_ERROR_STOP=1', '-Atc', sql], env=self.env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Machinery('psql: ' + r.stdout.decode())
        return r.stdout.decode()

    def databases(self, n):
        for i in range(n):
            self.psql('CREATE DATABASE w%d' % i)

    def stop(self):
        if self.proc.poll() is None:
            self.proc.send_signal(3) # SIGQUIT: immediate
            try: self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill(); self.proc.wait()
        self.log.close()
        shutil.rmtree(self.dir, ignore_errors=True)

"""Planted bugs, third group."""
REMOTE = 'src/hypershell/core/remote.py'

PLANTS = {
 'ssh-pattern-host': dict(property='K05', file=REMOTE,
  edits=[("            return ssh_config.lookup(hostname)\n",
          "            return ssh_config.lookup(hostname) if hostname in ssh_config.get_hostnames() else None\n")],
  needs='an SSH configuration that describes the host by a pattern (Host node*, Host *) instead of its literal name',
  breaks='output of tasks on hosts described by a pattern is fetched with the wrong user, port, key or without the proxy',
  demo='''
from hypershell.core.remote import SSHConfig
with open('ssh_config', 'w') as stream:
    stream.write('Host login\\n    User bob\\n\\nHost node*\\n    User alice\\n    IdentityFile /keys/alice\\n')
assert SSHConfig.from_config('login', 'ssh_config').username == 'bob'
cfg = SSHConfig.from_config('node7', 'ssh_config')
assert cfg.username == 'alice', cfg
assert '/keys/alice' in cfg.key_filename, cfg
'''),

 'heartbeats-bounded': dict(property='N01', file='src/hypershell/core/queue.py',
  edits=[("        self.heartbeat = JoinableQueue(maxsize=0)\n", "        self.heartbeat = JoinableQueue(maxsize=self.config.size)\n")],
  needs='more clients sending heartbeats than the configured queue size between two reads of the server',
  breaks='heartbeats block clients, which are then taken for dead',
  demo="""
from queue import Full
from hypershell.core.queue import QueueServer, QueueClient, QueueConfig
if __name__ == '__main__':
    import socket
    s = socket.socket(); s.bind(('localhost', 0)); port = s.getsockname()[1]; s.close()
    config = QueueConfig(host='localhost', port=port, auth='key', size=1)
    with QueueServer(config=config):
        with QueueClient(config=config) as client:
            try:
                for i in range(5):
                    client.heartbeat.put(b'x', timeout=2)
            except Full:
                sys.exit('heartbeat queue blocks')
"""),
 'key-ascii-only': dict(property='N01', file='src/hypershell/core/queue.py',
  edits=[("authkey=str(self.config.auth).encode())", "authkey=str(self.config.auth).encode('ascii', errors='ignore'))")],
  needs='keys that differ only in characters outside ASCII',
  breaks='a client with another key is let in and takes tasks',
  demo="""
from multiprocessing import AuthenticationError
from hypershell.core.queue import QueueServer, QueueClient, QueueConfig
if __name__ == '__main__':
    import socket
    s = socket.socket(); s.bind(('localhost', 0)); port = s.getsockname()[1]; s.close()
    with QueueServer(config=QueueConfig(host='localhost', port=port, auth='gr\u00fcn', size=1)):
        try:
            with QueueClient(config=QueueConfig(host='localhost', port=port, auth='gr\u00f6n', size=1)):
                sys.exit('another key is accepted')
        except AuthenticationError:
            pass
"""),
}

APP = 'src/application.rs'
LIS = 'src/mqtt/listener.rs'
HEAD = '''
def up(hosts):
    d = tempfile.mkdtemp()
    ports = [free_port() for _ in hosts]
    if len(set(h for h in hosts)) == len(hosts):
        ports = [ports[0]] * len(hosts)
    open(d + '/pw', 'w').close()
    open(d + '/conf', 'w').write('[mqtt]\\nlisteners_tcp = [%s]\\n[authentication]\\npassword_file = "%s/pw"\\n' % (', '.join('"%s:%d"' % (h, p) for h, p in zip(hosts, ports)), d))
    p = subprocess.Popen([BIN, '-c', d + '/conf'], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d, p, ports


def reach(host, port):
    end = time.time() + 5
    while time.time() < end:
        try:
            s = socket.create_connection((host, port), 1)
            s.settimeout(2)
            s.sendall(connect('x'))
            r = s.recv(4)
            s.close()
            return r == bytes([0x20, 2, 0, 0])
        except OSError:
            time.sleep(0.05)
    return False


def down(d, p):
    p.kill()
    p.wait()
    shutil.rmtree(d, ignore_errors=True)

'''
SEEDS = {
 's62-sixteen-listeners': dict(property='C28', needs='more than sixteen configured addresses', breaks='the addresses after the sixteenth are never bound',
  edits=[(APP, '        listeners.push(tokio::spawn(listener.start_accepting()));\n', '''        listeners.push(tokio::spawn(listener.start_accepting()));

        if listeners.len() == 16 {
            info!("Not listening on any further address");
            break;
        }
''')],
  py=HEAD + '''
d, p, ports = up(['127.0.0.1'] * 20)
ok = [reach('127.0.0.1', q) for q in ports]
down(d, p)
check(all(ok), ok)
'''),
 's63-same-port': dict(property='C28', needs='two configured addresses with the same port on different hosts', breaks='only the first of them is bound',
  edits=[(APP, '    for bind_address in settings.mqtt.listeners_tcp {\n', '''    let mut ports = std::collections::HashSet::new();

    for bind_address in settings.mqtt.listeners_tcp {
        let port = bind_address.rsplit(':').next().unwrap_or_default();
        if !ports.insert(port.to_string()) {
            debug!("Already listening on port {}", port);
            continue;
        }

''')],
  py=HEAD + '''
d, p, ports = up(['127.0.0.1', '127.0.0.2'])
ok = [reach('127.0.0.1', ports[0]), reach('127.0.0.2', ports[1])]
down(d, p)
check(all(ok), ok)
'''),
 's64-own-handler': dict(property='C28', needs='a configured IPv6 address', breaks='its listener gets a sender whose receiver nobody reads, so its clients are never answered',
  edits=[(APP, '    for bind_address in settings.mqtt.listeners_tcp {\n', '''    let (v6_tx, _v6_rx) = mpsc::channel(32);

    for bind_address in settings.mqtt.listeners_tcp {
        let client_tx = if bind_address.starts_with('[') {
            v6_tx.clone()
        } else {
            client_tx.clone()
        };
''')],
  py=HEAD + '''
try:
    socket.socket(socket.AF_INET6).bind(('::1', 0))
except OSError:
    sys.exit(0)
d, p, ports = up(['127.0.0.1', '[::1]'])
ok = [reach('127.0.0.1', ports[0]), reach('::1', ports[1])]
down(d, p)
check(all(ok), ok)
'''),
 's65-unspecified': dict(property='C28', needs='0.0.0.0 as configured address and a client on another address of the machine', breaks='the broker listens on 127.0.0.1 only',
  edits=[(LIS, 'let listener = TcpListener::bind(address).await.unwrap();', '''let host = address.replace("0.0.0.0", "127.0.0.1");
        let listener = TcpListener::bind(host.as_str()).await.unwrap();''')],
  py=HEAD + '''
d, p, ports = up(['0.0.0.0'])
ok = [reach('127.0.0.1', ports[0]), reach('127.0.0.2', ports[0])]
down(d, p)
check(all(ok), ok)
'''),
}

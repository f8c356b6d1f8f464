#!/usr/bin/env python3
"""mkbug.py SPEC.py : SPEC defines BUGS=[dict(id,property,edits=[(file,old,new)],demo,needs,breaks)]; writes seeded/<id>/."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = r'''#![allow(dead_code, unused_imports)]
use htp::config::Config;
use htp::connection_parser::{ConnectionParser, HtpStreamState, ParserData};
use htp::transaction::Transaction;
use std::cell::RefCell;
thread_local! {
    static BODY: RefCell<Vec<(char, usize, Vec<u8>)>> = RefCell::new(vec![]);
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}
fn note(s: String) { LOG.with(|l| l.borrow_mut().push(s)) }
fn logged() -> Vec<String> { LOG.with(|l| l.borrow().clone()) }
fn on_req_body(tx: &mut Transaction, d: &ParserData) -> Result<(), htp::HtpStatus> {
    BODY.with(|b| b.borrow_mut().push(('q', tx.index, d.as_slice().to_vec()))); Ok(())
}
fn on_res_body(tx: &mut Transaction, d: &ParserData) -> Result<(), htp::HtpStatus> {
    BODY.with(|b| b.borrow_mut().push(('s', tx.index, d.as_slice().to_vec()))); Ok(())
}
fn body(k: char, tx: usize) -> Vec<u8> {
    BODY.with(|b| b.borrow().iter().filter(|x| x.0 == k && x.1 == tx).flat_map(|x| x.2.clone()).collect())
}
fn config() -> Config {
    let mut c = Config::default();
    c.register_request_body_data(on_req_body);
    c.register_response_body_data(on_res_body);
    c
}
fn open(cfg: Config) -> Box<ConnectionParser> {
    BODY.with(|b| b.borrow_mut().clear());
    LOG.with(|b| b.borrow_mut().clear());
    let mut p = Box::new(ConnectionParser::new(cfg));
    p.open(Some("10.0.0.1".parse().unwrap()), Some(1234), Some("10.0.0.2".parse().unwrap()), Some(80), None);
    p
}
fn req(p: &mut ConnectionParser, b: &[u8]) -> HtpStreamState { p.request_data(b.into(), None) }
fn res(p: &mut ConnectionParser, b: &[u8]) -> HtpStreamState { p.response_data(b.into(), None) }
fn text(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
for b in ns['BUGS']:
    if only and b['id'] not in only: continue
    T = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', T + '/w', 'HEAD'])
        for f, old, new in b['edits']:
            p = os.path.join(T, 'w', f); s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', T + '/w', 'diff'])
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', T + '/w'])
        shutil.rmtree(T, ignore_errors=True)
    D = os.path.join(ROOT, 'seeded', b['id']); os.makedirs(D, exist_ok=True)
    open(D + '/patch.diff', 'wb').write(d)
    open(D + '/demo.rs', 'w').write(PRELUDE + b['demo'])
    shutil.copy(os.path.join(ROOT, 'tools', 'demo.sh'), D + '/demo.sh')
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(D + '/meta.json', 'w'), indent=1)
    print('wrote', b['id'])

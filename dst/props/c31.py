"""DNS resolution."""
from ..world import *
from .c29 import until
from scarletio.dns_query import requests as requests_module
from scarletio.dns_query.constants import *
from scarletio.dns_query import constants as dns_constants
from scarletio.dns_query.resolve_configuration import NameServerConfiguration, ResolveConfiguration, SortListElement
from itertools import count
import ipaddress
import random
import socket as real_socket

BUDGET = {'quick': 16000, 'thorough': 400000}
RULE = ('One evaluation is a history of concurrent forward and reverse lookups against one to three simulated name servers over UDP and TCP (TLS ports refuse or stay silent): every query '
        'meets a scripted behaviour (right answer, late, duplicated, truncated, spoofed datagrams before it, foreign ids or questions, queries instead of responses, garbage, cut or looping messages, '
        'error codes, silence, half a message, reset, refused, unreachable or unanswered connections), and some lookups are cancelled. The network loses, duplicates and reorders datagrams.')
ASSUMPTIONS = ['Names have at least two labels: search lists are not modelled.', 'A name server is asked at most once for each question (as documented), so a lost datagram means that the next one is asked.',
               'Name servers answer right, wrongly or not at all, but do not lie about data in a well formed answer to the question.']
STUBS = ['name servers']

A, NS, CNAME, PTR, AAAA = 1, 2, 5, 12, 28
USABLE = ('ok', 'dup', 'spoofed', 'truncated', 'upper', 'alias', 'extra')
BROKEN = ('silent', 'wrong-id', 'wrong-question', 'query-bit', 'garbage', 'cut', 'loop', 'servfail', 'refused', 'notimp', 'formerr', 'close', 'reset', 'half', 'half-stall', 'late', 'empty')
MALFORMED = ('garbage', 'cut', 'loop', 'empty', 'half', 'close')
NAMES = {
    'one.example': {A: ['10.0.0.1'], AAAA: []},
    'both.example': {A: ['10.0.1.1', '10.0.1.2'], AAAA: ['fd00::1', 'fd00::2:1']},
    'six.example.com': {A: [], AAAA: ['fd00:1::5']},
    'many.example.org': {A: [f'10.0.3.{i}' for i in range(1, 30)], AAAA: [f'fd00:2::{i:x}' for i in range(1, 20)]},
    'none.example': {A: [], AAAA: []},
    'missing.example': None,
}
REVERSE = {'10.0.0.1': 'one.example', 'fd00::1': 'both.example', '10.9.9.9': None, '10.0.1.2': 'a-b.both.example'}
POISON = {A: '66.6.6.6', AAAA: 'dead::6'}


def gen(rng):
    servers = []
    for index in range(rng.choice([1, 2, 2, 3])):
        good = rng.random() < 0.6
        does = []
        for _ in range(rng.choice([1, 2, 4])):
            delay = rng.choice([0.0, 0.0, 0.001, 0.05, 0.2])
            if good or rng.random() < 0.3:
                does.append([rng.choice(USABLE), delay])
            else:
                does.append([rng.choice(BROKEN), delay])
        servers.append({'ip': rng.choice([4, 4, 4, 6]), 'multi': rng.random() < 0.25, 'tls': rng.choice(['no', 'no', 'no', 'maybe', 'yes']),
                        'connect': rng.choice(['ok'] * 5 + ['refuse', 'never', 'unreachable']), 'tls_connect': rng.choice(['refuse', 'refuse', 'never']), 'does': does})
    lossy = rng.random() < 0.3
    return {
        'params': swarm(rng, delay_max=[0.001, 0.01], udp_loss=[0.2, None] if lossy else [None], udp_dup=[None, 0.2], udp_reorder=[None, 0.3], udp_reorder_max=[0.05],
                        eagain=[0.0, 0.2], short=[0.0, 0.3], segment=[0.0, 0.5], late=[None, 0.2], late_max=[0.002], tick=[1e-7]),
        'servers': servers,
        'transport': rng.choice(['auto', 'udp', 'udp', 'udp', 'tcp', 'tls']),
        'attempts': rng.choice([1, 2, 2, 3, 5]), 'timeout': rng.choice([1.0, 1.0, 5.0]), 'rotate': rng.random() < 0.2, 'only4': rng.random() < 0.2, 'raise': rng.random() < 0.1,
        'sort': rng.choice([None, None, None, ['10.0.3.16/28'], ['fd00::/64', '10.0.1.2/32'], ['10.0.1.2/32', '10.0.3.0/30']]),
        'lookups': [gen_lookup(rng) for _ in range(rng.choice([1, 1, 2, 4]))],
        'seed': rng.getrandbits(16),
    }


def gen_lookup(rng):
    if rng.random() < 0.2:
        return {'kind': 'name', 'at': rng.choice([0.0, 0.0, 0.01, 0.5]), 'name': rng.choice(sorted(REVERSE)), 'required': rng.random() < 0.3, 'cancel': rng.choice([None] * 6 + [0.0, 0.01, 0.5])}
    name = rng.choice(sorted(NAMES) * 4 + ['10.1.2.3', 'fd00::9', 'local'])
    return {'kind': 'address', 'at': rng.choice([0.0, 0.0, 0.01, 0.5]), 'name': name, 'family': {'10.1.2.3': 4, 'fd00::9': 6}.get(name) or rng.choice([0, 0, 4, 6]),
            'type': rng.choice([0, 1, 1, 2]), 'port': rng.choice([None, 80, 80]), 'canonical': rng.random() < 0.2, 'cancel': rng.choice([None] * 6 + [0.0, 0.001, 0.01, 0.5])}


def valid(plan):
    return bool(plan['servers']) and plan['attempts'] > 0 and plan['timeout'] >= 1.0 and all(s['ip'] in (4, 6) and s['does'] and all(len(d) == 2 and d[0] for d in s['does']) for s in plan['servers']) and all(
        l['name'] in (REVERSE if l['kind'] == 'name' else [*NAMES, '10.1.2.3', 'fd00::9', 'local']) for l in plan['lookups']) and all(
        l.get('family', 0) in {'10.1.2.3': (4,), 'fd00::9': (6,)}.get(l['name'], (0, 4, 6)) or l['kind'] == 'name' for l in plan['lookups']) and (plan['sort'] is None or all('/' in s for s in plan['sort']))


class World:
    pass


# ---- messages


class Bad(Exception):
    pass


def parse_query(data):
    """Strict parser of a query."""
    if len(data) < 12:
        raise Bad('short')
    ident, flags, questions, answers, authority, additional = (int.from_bytes(data[i:i + 2], 'big') for i in range(0, 12, 2))
    if flags & ~0x0130 or not flags & 0x0100:
        raise Bad(f'flags {flags:x}')
    if answers or authority or additional or not questions:
        raise Bad('counts')
    index = 12
    out = []
    for _ in range(questions):
        labels = []
        while True:
            if index >= len(data):
                raise Bad('name')
            n = data[index]
            index += 1
            if not n:
                break
            if n > 63 or index + n > len(data):
                raise Bad('label')
            labels.append(data[index:index + n].decode('ascii'))
            index += n
        if index + 4 > len(data):
            raise Bad('question')
        out.append(('.'.join(labels), int.from_bytes(data[index:index + 2], 'big'), int.from_bytes(data[index + 2:index + 4], 'big')))
        index += 4
    if index != len(data):
        raise Bad('rest')
    return ident, out


def encode_name(name, known=None, at=0):
    """Names are compressed to the known ones if there are."""
    out = b''
    labels = name.split('.') if name else []
    for index in range(len(labels)):
        rest = '.'.join(labels[index:])
        if known is not None:
            if rest in known:
                return out + (0xc000 | known[rest]).to_bytes(2, 'big')
            if at + len(out) < 0x4000:
                known[rest] = at + len(out)
        label = labels[index].encode('latin-1')
        out += bytes([len(label)]) + label
    return out + b'\0'


def message(ident, flags, questions, answers, authority=(), additional=(), compressed=True):
    out = bytearray()
    for value in (ident, flags, len(questions), len(answers), len(authority), len(additional)):
        out += value.to_bytes(2, 'big')
    known = {} if compressed else None
    for name, kind, code in questions:
        out += encode_name(name, known, len(out)) + kind.to_bytes(2, 'big') + code.to_bytes(2, 'big')
    for name, kind, data in (*answers, *authority, *additional):
        out += encode_name(name, known, len(out)) + kind.to_bytes(2, 'big') + b'\0\1' + (300).to_bytes(4, 'big') + len(data).to_bytes(2, 'big') + data
    return bytes(out)


def pack(address):
    return ipaddress.ip_address(address).packed


def records(question, rng, behaviour):
    """The right answers of a question and whether its name exists."""
    name, kind, _ = question
    name = name.lower()
    if kind == PTR:
        for address, target in REVERSE.items():
            if ipaddress.ip_address(address).reverse_pointer == name:
                if target is None:
                    return [], False
                answers = []
                if behaviour == 'alias':
                    answers.append((name, CNAME, encode_name('1.sub.' + name)))
                    name = '1.sub.' + name
                answers.append((name, PTR, encode_name(target)))
                return answers, True
        return [], False
    zone = NAMES.get(name)
    if zone is None:
        return [], False
    answers = []
    if behaviour == 'alias':
        answers.append((name, CNAME, encode_name('target.' + name)))
        name = 'target.' + name
        if not zone.get(kind):
            return answers, True
    for address in zone.get(kind, ()):
        answers.append((name, kind, pack(address)))
    if behaviour == 'extra' and answers:
        answers.insert(len(answers) // 2, (name, 99, b'text'))
        answers.append((name, kind, b'\1\2\3'))
    return answers, True


class NameServer:
    def __init__(self, w, index, spec):
        self.w = w
        self.index = index
        self.spec = spec
        self.ip = f'10.53.0.{index + 1}' if spec['ip'] == 4 else f'fd53::{index + 1}'
        self.count = 0
        self.queries = []
        net = w.sim.net
        net.udp[self.ip, 53] = self.udp
        if spec['connect'] == 'ok':
            net.listeners[self.ip, 53] = self.tcp

    def udp(self, data, source, reply):
        if source in self.w.sources:
            # a duplicated datagram, it is answered the same way
            self.w.sim.fault('query_repeated')
            behaviour = self.w.sources[source]
        else:
            behaviour = self.next()
            self.w.sources[source] = behaviour
        messages = self.answer(data, 'udp', behaviour[0])
        for index, payload in enumerate(messages):
            self.w.sim.after(behaviour[1] + (self.w.plan['timeout'] + 0.1 if behaviour[0] == 'late' else 0.0) + index * 0.001, reply, payload)

    def next(self):
        behaviour = self.spec['does'][self.count % len(self.spec['does'])]
        self.count += 1
        return behaviour

    def tcp(self, end):
        w = self.w
        state = {'data': b'', 'done': False}

        def callback(end, kind, data):
            if kind != 'data' or state['done']:
                return
            state['data'] += data
            buffered = state['data']
            if len(buffered) < 2 or len(buffered) < 2 + int.from_bytes(buffered[:2], 'big'):
                return
            state['done'] = True
            if len(buffered) != 2 + int.from_bytes(buffered[:2], 'big'):
                w.fail('query', f'data after the query: {buffered!r}')
            behaviour, delay = self.next()
            w.sim.fault('tcp_' + behaviour)
            if behaviour in ('silent', 'half-stall', 'half'):
                messages = self.answer(buffered[2:], 'tcp', 'ok')
            else:
                messages = self.answer(buffered[2:], 'tcp', behaviour)
            if behaviour == 'silent':
                return
            if behaviour == 'reset':
                w.sim.after(delay, end.raw_rst)
                return
            if behaviour in ('close', 'empty'):
                w.sim.after(delay, end.raw_close)
                return
            payload = messages[-1]
            payload = len(payload).to_bytes(2, 'big') + payload
            if behaviour.startswith('half'):
                payload = payload[:random.Random(w.plan['seed']).randrange(len(payload))]
            if behaviour == 'late':
                delay += w.plan['timeout'] + 0.1

            def respond():
                end.raw_send(payload)
                if behaviour == 'half':
                    end.raw_close()
            w.sim.after(delay, respond)
        end.callback = callback

    def answer(self, data, transport, behaviour):
        w = self.w
        try:
            ident, questions = parse_query(data)
        except Bad as exception:
            w.fail('query', f'{exception} in {data!r}')
            return []
        w.sim.fault(behaviour)
        self.queries.append((ident, questions, behaviour))
        if len(questions) > 1 and not self.spec['multi']:
            w.fail('query', f'{len(questions)} questions in a query')
        for name, kind, code in questions:
            if code != 1 or kind not in (A, AAAA, PTR) or name not in w.asked_names:
                w.fail('query', f'{(name, kind, code)}')
        rng = random.Random(f'{w.plan["seed"]}{self.count}{behaviour}')
        answers = []
        exists = True
        for question in questions:
            found, there = records(question, rng, behaviour)
            answers.extend(found)
            exists = exists and there
        flags = 0x8180 | (0 if exists else 3)
        compressed = rng.random() < 0.7
        asked = questions
        authority = [('example', NS, encode_name('ns.example'))] if rng.random() < 0.3 else []
        if rng.random() < 0.3:
            # pointers far into the message
            authority += [('far.away.test', NS, encode_name('ns.example')), ('far.away.test', NS, encode_name('ns.example'))]
        if transport == 'tcp' and rng.random() < 0.3:
            # a big answer, names are pointed to from far
            w.sim.fault('big_answer')
            answers[1:1] = [('filler.test', 16, b'\xff' + b'x' * 255)] * rng.choice([5, 20, 32, 40, 70, 200])
        if behaviour == 'upper':
            asked = [(name.upper(), kind, code) for name, kind, code in questions]
        right = message(ident, flags, asked, answers, authority, compressed=compressed)
        poison = []
        for name, kind, _ in questions:
            poison.append((name, kind, encode_name('poison.example') if kind == PTR else pack(POISON[kind])))
        wrong_id = message((ident + rng.choice([1, 2, 0x100, 0xffff])) & 0xffff, 0x8180, questions, poison)
        other = [('other.example', kind, code) for name, kind, code in questions]
        wrong_question = message(ident, 0x8180, other, [('other.example', kind, data) for _, kind, data in poison])
        if rng.random() < 0.3:
            wrong_question = message(ident, 0x8180, [(name, 15, code) for name, kind, code in questions], poison)
        elif rng.random() < 0.3:
            wrong_question = message(ident, 0x8180, questions + other, poison)
        query_bit = message(ident, 0x0180, questions, poison)
        loop = message(ident, 0x8180, questions, [])
        at = len(loop)
        loop = loop[:6] + b'\0\1' + loop[8:] + rng.choice([
            (0xc000 | at).to_bytes(2, 'big'), b'\1a' + (0xc000 | at).to_bytes(2, 'big'), b'\1a\1b' + (0xc000 | at + 2).to_bytes(2, 'big'),
            (0xc000 | at + 2).to_bytes(2, 'big') + (0xc000 | at).to_bytes(2, 'big')]) + b'\0\1\0\1\0\0\0\1\0\4\1\2\3\4'
        if rng.random() < 0.3:
            # the loop is in the data of the record before
            inner = (0xc000 | at + 12).to_bytes(2, 'big')
            loop = loop[:6] + b'\0\2' + loop[8:at] + b'\xc0\x0c' + b'\0\x63\0\1\0\0\0\1\0\2' + inner + inner + b'\0\1\0\1\0\0\0\1\0\4\1\2\3\4'
        garbage = bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 5, 11, 12, 30, 100])))
        cut = right[:-rng.choice([1, 2, 3])] if rng.random() < 0.5 else right[:rng.randrange(1, len(right))]
        if behaviour == 'spoofed' and transport == 'udp' and not w.plan['raise']:
            choices = [wrong_id, wrong_question, query_bit, loop, garbage, cut]
            return [rng.choice(choices) for _ in range(rng.choice([1, 2, 4]))] + [right]
        if behaviour == 'truncated' and transport == 'udp':
            return [message(ident, flags | 0x200, questions, answers[:rng.choice([0, 1])])]
        if behaviour == 'dup':
            return [right, right]
        if behaviour in ('ok', 'late', 'upper', 'alias', 'extra', 'spoofed', 'truncated'):
            return [right]
        if behaviour in ('servfail', 'refused', 'notimp', 'formerr'):
            code = {'servfail': 2, 'refused': 5, 'notimp': 4, 'formerr': 1}[behaviour]
            return [message(ident, 0x8180 | code, [] if rng.random() < 0.5 else questions, [])]
        if behaviour in ('silent', 'close', 'reset', 'half', 'half-stall'):
            return []
        return [{'wrong-id': wrong_id, 'wrong-question': wrong_question, 'query-bit': query_bit, 'loop': loop, 'garbage': garbage, 'cut': cut, 'empty': b''}[behaviour]]

    def healthy(self):
        w = self.w
        transport = w.transport_of(self.spec)
        if any(behaviour not in USABLE for behaviour, _ in self.spec['does']):
            return False
        if transport == 'udp' and (w.plan['params'].get('udp_loss') or any(b == 'spoofed' and w.plan['raise'] for b, _ in self.spec['does'])):
            return False
        if (transport == 'tcp' or any(behaviour == 'truncated' for behaviour, _ in self.spec['does'])) and self.spec['connect'] != 'ok':
            return False
        return transport is not None


def transport_of(w, spec):
    kind = w.plan['transport']
    if kind in ('udp', 'tcp'):
        return kind
    if kind == 'tls':
        return None
    if spec['tls'] == 'no' or spec['tls'] == 'maybe' and spec['tls_connect'] == 'refuse':
        return 'tcp'
    return None


def expected(lookup, plan, swapped):
    """The addresses which belong to the lookup in the order of the answers."""
    name = lookup['name']
    families = [6, 4] if lookup['family'] == 0 else [lookup['family']]
    if lookup['family'] == 0 and plan['only4']:
        families = [4]
    addresses = []
    if name == 'local':
        addresses = [{4: '127.0.0.1', 6: '::1'}[family] for family in families]
    elif name == '10.1.2.3' or name == 'fd00::9':
        if (4 if '.' in name else 6) not in families:
            return None
        addresses = [name]
    else:
        zone = NAMES[name]
        if swapped:
            families.reverse()
        for family in families:
            if zone is not None:
                addresses.extend(zone[A if family == 4 else AAAA])
    addresses = [ipaddress.ip_address(a) for a in addresses]
    out = []
    for element in plan['sort'] or ():
        network = ipaddress.ip_network(element)
        picked = [a for a in addresses if a in network]
        out.extend(picked)
        addresses = [a for a in addresses if a not in picked]
    return out + addresses


async def look(w, loop, lookup, record):
    await sleep(lookup['at'], loop)
    record['begin'] = w.sim.now
    try:
        if lookup['kind'] == 'name':
            address = lookup['name']
            flags = real_socket.NI_NUMERICSERV | (real_socket.NI_NAMEREQD if lookup['required'] else 0)
            return await loop.get_name_info((address, 80) if '.' in address else (address, 80, 0, 0), flags, resolve_configuration=w.configuration)
        return await loop.get_address_info(
            None if lookup['name'] == 'local' else lookup['name'], lookup['port'], family={0: 0, 4: real_socket.AF_INET, 6: real_socket.AF_INET6}[lookup['family']],
            type={0: 0, 1: real_socket.SOCK_STREAM, 2: real_socket.SOCK_DGRAM}[lookup['type']], flags=real_socket.AI_CANONNAME if lookup['canonical'] else 0,
            resolve_configuration=w.configuration)
    finally:
        record['end'] = w.sim.now


def configuration_of(w):
    plan = w.plan
    level = {'no': NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_NO, 'maybe': NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_MAYBE,
             'yes': NAME_SERVER_CONFIGURATION_SECURE_CONNECTION_SUPPORT_LEVEL_YES}
    configuration = ResolveConfiguration()
    configuration.name_server_configurations = tuple(
        NameServerConfiguration(IP_TYPE_IP_V4 if server.spec['ip'] == 4 else IP_TYPE_IP_V6, int(ipaddress.ip_address(server.ip)), server.spec['multi'], level[server.spec['tls']])
        for server in w.servers)
    configuration.option_attempts = plan['attempts']
    configuration.option_timeout = plan['timeout']
    configuration.option_rotate = plan['rotate']
    configuration.option_no_ip_v6_lookups = plan['only4']
    configuration.preference_raise_upon_response_parsing_error = plan['raise']
    configuration.preference_query_transport_type = {'auto': QUERY_TRANSPORT_TYPE_AUTO, 'udp': QUERY_TRANSPORT_TYPE_UDP, 'tcp': QUERY_TRANSPORT_TYPE_TCP, 'tls': QUERY_TRANSPORT_TYPE_TLS}[plan['transport']]
    if plan['sort'] is not None:
        elements = []
        for text in plan['sort']:
            network = ipaddress.ip_network(text)
            elements.append(SortListElement(IP_TYPE_IP_V4 if network.version == 4 else IP_TYPE_IP_V6, int(network.network_address), int(network.netmask)))
        configuration.sort_list = tuple(elements)
    return configuration


async def main(loop, w):
    plan = w.plan
    sim = w.sim
    net = sim.net
    before = set(net.fds)
    records_ = []
    for lookup in plan['lookups']:
        record = {'lookup': lookup, 'begin': None, 'end': None}
        record['task'] = loop.create_task(look(w, loop, lookup, record))
        records_.append(record)

    async def cancel(record, after):
        await sleep(record['lookup']['at'] + after, loop)
        if record['task'].is_pending():
            sim.fault('cancel_lookup')
            record['cancelled'] = sim.now
            record['task'].cancel()
    for record in records_:
        if record['lookup']['cancel'] is not None:
            record['canceller'] = loop.create_task(cancel(record, record['lookup']['cancel']))
    asked = min(plan['attempts'], len(w.servers))
    limit = asked * plan['timeout'] * 2
    await until(loop, lambda: all(record['task'].is_done() for record in records_), limit + 5.0, 0.01)
    await sleep(0.05, loop)
    left = [fd for fd in net.fds if fd not in before]
    if left and not any(not record['task'].is_done() for record in records_):
        raise Violation('leak', f'{len(left)} sockets left open {plan}')
    w.check()
    for record in records_:
        check_lookup(w, record)


def check_lookup(w, record):
    plan = w.plan
    lookup = record['lookup']
    outcome = outcome_of(record['task'])
    if outcome[0] == 'pending':
        raise Violation('hangs', f'{lookup} {plan}')
    if record.get('cancelled') is not None:
        if record['end'] is not None and record['end'] > record['cancelled'] + 0.01:
            raise Violation('cancel-late', f'{lookup} {plan}')
        if outcome[0] == 'cancelled':
            return
    asked = min(plan['attempts'], len(w.servers))
    questions = 1
    if lookup['kind'] == 'address' and lookup['family'] == 0 and not plan['only4']:
        questions = 2
    limit = asked * plan['timeout'] * questions + 0.2
    if record['end'] - record['begin'] > limit:
        raise Violation('late', f'{record["end"] - record["begin"]} of {limit} {lookup} {plan}')
    tried = w.servers[:asked]
    if plan['rotate'] and asked < len(w.servers):
        healthy = all(server.healthy() for server in w.servers)
    else:
        healthy = any(server.healthy() for server in tried)
    malformed = plan['raise'] and any(b in MALFORMED or b == 'spoofed' for server in w.servers for b, _ in server.spec['does'])
    if outcome[0] == 'raise':
        if not isinstance(outcome[1], real_socket.gaierror):
            raise Violation('error', f'{outcome[1]!r} {lookup} {plan}')
        code = outcome[1].errno
    elif outcome[0] != 'return':
        raise Violation('outcome', f'{outcome!r} {lookup} {plan}')
    else:
        code = None
    if malformed and code == real_socket.EAI_FAIL:
        return
    if lookup['kind'] == 'name':
        target = REVERSE[lookup['name']]
        if code is not None:
            if code == real_socket.EAI_NONAME:
                if not lookup['required'] or target is not None:
                    raise Violation('name-missing', f'{outcome[1]!r} {lookup} {plan}')
            elif code != real_socket.EAI_FAIL or healthy and not malformed:
                raise Violation('name-failed', f'{outcome[1]!r} {lookup} {plan}')
            return
        numeric = lookup['name'] if '.' in lookup['name'] else lookup['name'] + '%0'
        wanted = numeric if target is None else target
        if target is None and lookup['required'] or outcome[1] != (wanted, '80'):
            raise Violation('name', f'{outcome[1]!r} instead of {wanted} {lookup} {plan}')
        w.sim.fault('name_found')
        return
    direct = lookup['name'] not in NAMES
    options = [expected(lookup, plan, False)]
    if not direct:
        options.append(expected(lookup, plan, True))
    if lookup['name'] == 'local' and lookup['port'] is None:
        options = [None]
    if code is not None:
        if direct:
            if options[0] is None and code == real_socket.EAI_NONAME:
                return
            if options[0] is not None or code != real_socket.EAI_FAIL or healthy and not malformed:
                raise Violation('direct', f'{outcome[1]!r} {lookup} {plan}')
            return
        if code == real_socket.EAI_NONAME:
            if options[0]:
                raise Violation('missing', f'the name exists {lookup} {plan}')
        elif code != real_socket.EAI_FAIL:
            raise Violation('code', f'{outcome[1]!r} {lookup} {plan}')
        elif healthy and not malformed:
            raise Violation('failed', f'there was a working name server {outcome[1]!r} {lookup} {plan}')
        w.sim.fault('lookup_failed')
        return
    port = lookup['port'] or 0
    kinds = [(real_socket.SOCK_DGRAM, real_socket.SOL_UDP), (real_socket.SOCK_STREAM, real_socket.SOL_TCP)]
    if lookup['type'] == 0:
        if not port:
            kinds.append((real_socket.SOCK_RAW, real_socket.SOL_IP))
    else:
        kinds = [kind for kind in kinds if kind[0] == (real_socket.SOCK_STREAM if lookup['type'] == 1 else real_socket.SOCK_DGRAM)]
    infos = outcome[1]
    if len(infos) % len(kinds):
        raise Violation('infos', f'{infos!r:.300} {lookup} {plan}')
    got = []
    for index, (family, kind, protocol, canonical, address) in enumerate(infos):
        ip = ipaddress.ip_address(address[0])
        if index % len(kinds) == 0:
            got.append(ip)
        if ip != got[-1] or (kind, protocol) != kinds[index % len(kinds)] or address[1:] != ((port,) if ip.version == 4 else (port, 0, 0)) or family != (
                real_socket.AF_INET if ip.version == 4 else real_socket.AF_INET6):
            raise Violation('info', f'{infos[index]!r:.300} {lookup} {plan}')
        names = (lookup['name'], 'target.' + lookup['name']) if lookup['canonical'] and not direct else ('',)
        if canonical.lower() not in names:
            raise Violation('canonical', f'{infos[index]!r:.300} {lookup} {plan}')
    if got in options:
        w.sim.fault('resolved')
        return
    if not direct and not healthy and got:
        # a part of the answers
        for only in (4, 6):
            if any(got == [a for a in option if a.version == only] for option in options):
                w.sim.fault('resolved_partly')
                return
    raise Violation('addresses', f'{[str(a) for a in got]} instead of {[str(a) for a in options[0] or ()]} {lookup} {plan}')


def run(plan, sim):
    w = World()
    w.plan = plan
    w.sim = sim
    w.problems = []
    w.sources = {}
    w.fail = lambda kind, text: w.problems.append((kind, text))
    w.transport_of = lambda spec: transport_of(w, spec)

    def check():
        if w.problems:
            kind, text = w.problems[0]
            raise Violation(kind, f'{text} {plan}')
    w.check = check
    w.asked_names = {l['name'] if l['kind'] == 'address' else ipaddress.ip_address(l['name']).reverse_pointer for l in plan['lookups']}
    w.servers = []
    for index, spec in enumerate(plan['servers']):
        w.servers.append(NameServer(w, index, spec))
    by_ip = {server.ip: server for server in w.servers}

    def policy(address):
        server = by_ip.get(address[0])
        if server is None:
            return None
        if address[1] == 53:
            return server.spec['connect']
        return server.spec['tls_connect']
    sim.params['connect'] = policy
    w.configuration = configuration_of(w)
    requests_module.COUNTER = iter(count(random.Random(plan['seed']).choice([0, 7, 0xfffe, 0xffff])))
    run_async(sim, main, w)

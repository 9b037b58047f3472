// Validation and info messages: what one check shows, and what overtaken checks leave alone.
import { S, undef, I, lift, seq, rec, catSeq, sameList, within } from './prelude.mjs';
import { Suspend } from '../engine/exec.mjs';

const D = 'packages/vlossom/src/composables/';
const R = D + 'input-rules/input-rules-composable.ts';
const M = D + 'input-messages/input-messages-composable.ts';

/** what a rule or message function gives for a value; an asynchronous answer is a promise with a result of its own */
const answer = (f, v) => S.app('answer', [f, lift(v)], 'Val');
const later = (x) => S.and(S.is('vobj', x), S.app('instof_Promise', [S.sel('vo', x)], 'Bool'));
const result = (x, sort) => S.app('result' + sort, [S.sel('vo', x)], sort);

/** any rule: no answer, a text, or a promise */
function rules(E) {
    const [f, v] = [E.bvar('Val', 'f'), E.bvar('Val', 'v')];
    const a = S.app('answer', [f, v], 'Val');
    E.assume(S.forall([f, v], S.or(S.is('undef', a), S.is('vstr', a), later(a)), [[a]]));
    E.opaqueCall = (fn, args) => answer(fn, args[0]);
}
/** the answer of a settled promise, or of all of them */
const settled = (E, p, sort) => {
    if (p.k === 'obj') {
        if (p.f.get('#state').x !== 'all') return undefined;
        const s = p.f.get('#value');
        return E.arr(seq(s.len, (i) => result(lift(s.at(i)), sort)));
    }
    return S.ite(later(p), lift(result(p, sort)), p);
};
const error = (text) => rec(new Map([['state', S.str('error')], ['text', text]]));
const sameMsg = (E) => (x, y) => S.and(...['state', 'text'].map((k) => E.same(E.getProp(x, k), E.getProp(y, k))));

/** the messages the rules give: immediate answers first, then the asynchronous ones */
function expected(E, all, v) {
    const a = (i) => answer(lift(all.at(i)), v);
    const now = E.filterSeq(all, (i) => S.and(S.is('vstr', a(i)), S.not(S.eq(S.sel('vs', a(i)), S.str('')))), a);
    const wait = E.filterSeq(all, (i) => later(a(i)), a);
    const then = E.filterSeq(wait, (j) => S.not(S.eq(result(wait.at(j), 'Str'), S.str(''))), (j) => result(wait.at(j), 'Str'));
    return { now, wait, then };
}
function showsExactly(E, label, got, e) {
    E.relateCounts(e.now);
    E.relateCounts(e.wait);
    E.relateCounts(e.then);
    E.ensure(label + ': number', S.eq(got.len, S.add(e.now.len, e.then.len)));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, e.now.len))) E.ensure(label + ': each immediate one', sameMsg(E)(got.at(k), error(e.now.at(k))));
    const j = E.fresh('j', 'Int');
    if (E.decide(within(j, e.then.len))) E.ensure(label + ': each later one', sameMsg(E)(got.at(S.add(e.now.len, j)), error(e.then.at(j))));
}
function ruled(E, none = S.TRUE) {
    const own = E.ref(E.symArr('rule', E.nat('rules')));
    const dflt = E.ref(E.symArr('default', E.nat('defaults')));
    const noDefault = E.ref(none);
    const value = E.ref(E.val('value'));
    const api = E.call(E.get(R, 'useInputRules'), [value, own, dflt, noDefault]);
    const all = () => (E.decide(E.v(noDefault)) ? E.seqOf(E.v(own)) : catSeq(E.seqOf(E.v(dflt)), E.seqOf(E.v(own))));
    const shown = E.getProp(api, 'ruleMessages');
    return { own, dflt, noDefault, value, api, all, shown, check: () => E.call(E.getProp(api, 'checkRules'), []), now: () => E.seqOf(E.v(shown)) };
}
/** any info messages: fixed ones, and functions that answer at once or later */
function messages(E, ruled = E.ref(E.arr([]))) {
    const [f, v] = [E.bvar('Val', 'f'), E.bvar('Val', 'v')];
    const a = S.app('answer', [f, v], 'Val');
    E.assume(S.forall([f, v], S.is('vobj', a), [[a]]));
    E.opaqueCall = (fn, args) => answer(fn, args[0]);
    // by its type a message is a text with a state or a function, never a promise itself
    E.assume(S.forall([f], S.or(S.eq(E.typeofTerm(f), S.str('function')), S.not(later(f))), [[S.app('instof_Promise', [S.sel('vo', f)], 'Bool')]]));
    const list = E.ref(E.symArr('message', E.nat('messages')));
    const value = E.ref(E.val('value'));
    const api = E.call(E.get(M, 'useInputMessages'), [value, list, ruled]);
    return { list, value, api, check: () => E.call(E.getProp(api, 'checkMessages'), []), now: () => E.seqOf(E.v(E.getProp(api, 'computedMessages'))) };
}
const isFn = (E, x) => E.eq(E.typeofTerm(x), S.str('function'));
function expectedInfo(E, list, v) {
    const a = (i) => S.ite(isFn(E, list.at(i)), answer(lift(list.at(i)), v), lift(list.at(i)));
    const wait = (i) => S.and(isFn(E, list.at(i)), later(a(i)));
    const pending = E.filterSeq(list, wait, a);
    return { now: E.filterSeq(list, (i) => S.not(wait(i)), a), wait: pending };
}
function showsInfo(E, got, e) {
    E.relateCounts(e.now);
    E.relateCounts(e.wait);
    E.ensure('exactly the messages given: number', S.eq(got.len, S.add(e.now.len, e.wait.len)));
    const k = E.fresh('k', 'Int');
    if (E.decide(within(k, e.now.len))) E.ensure('each immediate one', E.same(got.at(k), e.now.at(k)));
    const j = E.fresh('j', 'Int');
    if (E.decide(within(j, e.wait.len))) E.ensure('each later one', E.same(got.at(S.add(e.now.len, j)), result(e.wait.at(j), 'Val')));
}
const anyMessages = (E, tag) => E.arr(seq(E.nat('shown' + tag), (i) => rec(new Map([['state', S.app('state' + tag, [i], 'Str')], ['text', S.app('text' + tag, [i], 'Str')]]))));

export const contracts = [
    ...[
        ['rules', S.TRUE, false],
        ['rules and default rules', S.FALSE, false],
        ['rules while an older check is waiting', S.TRUE, true],
    ].map(([what, none, older]) => ({
        name: 'one check: ' + what,
        run(E) {
            rules(E);
            const t = ruled(E, none);
            E.setProp(t.shown, 'value', anyMessages(E, 'Before'));
            if (older) {
                // the older check changes nothing when it goes on (see below)
                E.awaitHook = () => {
                    throw new Suspend();
                };
                t.check();
                E.setProp(t.value, 'value', E.val('newValue'));
                E.setProp(t.shown, 'value', anyMessages(E, 'Older'));
            }
            E.awaitHook = (p) => settled(E, p, 'Str');
            t.check();
            showsExactly(E, 'exactly the messages of the rules', t.now(), expected(E, t.all(), E.v(t.value)));
        },
    })),
    ...['own rules', 'default rules', 'default rules on', 'default rules off'].map((what) => ({
        name: 'changed ' + what,
        run(E) {
            rules(E);
            const t = ruled(E, S.bool(/own| on/.test(what)));
            E.awaitHook = (p) => settled(E, p, 'Str');
            E.settle();
            if (what === 'own rules') E.setProp(t.own, 'value', E.symArr('newRule', E.nat('newRules')));
            else if (what === 'default rules') {
                E.setProp(t.own, 'value', E.arr([]));
                E.setProp(t.dflt, 'value', E.symArr('newDefault', E.nat('newDefaults')));
            } else E.setProp(t.noDefault, 'value', S.not(E.v(t.noDefault)));
            E.flush();
            showsExactly(E, 'exactly the messages of the new rules', t.now(), expected(E, t.all(), E.v(t.value)));
        },
    })),
    {
        name: 'an overtaken check of the rules',
        run(E) {
            rules(E);
            const t = ruled(E);
            let overtaken = null;
            E.awaitHook = (p) => {
                if (overtaken) throw new Suspend();
                overtaken = anyMessages(E, 'Newer');
                const again = 1 + E.choose('again', 2);
                for (let i = 0; i < again; i++) {
                    E.setProp(t.value, 'value', E.val('newValue' + i));
                    t.check();
                }
                E.setProp(t.shown, 'value', overtaken);
                return settled(E, p, 'Str');
            };
            t.check();
            if (overtaken) {
                E.ensure('its answers are dropped', S.eq(t.now().len, S.app('shownNewer', [], 'Int')));
                const k = E.fresh('k', 'Int');
                if (E.decide(within(k, t.now().len))) E.ensure('the newer messages stay', E.same(E.getProp(t.now().at(k), 'text'), S.app('textNewer', [k], 'Str')));
            }
        },
    },
    ...[false, true].map((older) => ({
        name: 'one check of the info messages' + (older ? ' while an older one is waiting' : ''),
        run(E) {
            const t = messages(E);
            if (older) {
                E.awaitHook = () => {
                    throw new Suspend();
                };
                t.check();
                E.setProp(t.value, 'value', E.val('newValue'));
            }
            E.awaitHook = (p) => settled(E, p, 'Val');
            t.check();
            const e = expectedInfo(E, E.seqOf(E.v(t.list)), E.v(t.value));
            showsInfo(E, t.now(), e);
        },
    })),
    {
        name: 'changed info messages',
        run(E) {
            const t = messages(E);
            E.awaitHook = (p) => settled(E, p, 'Val');
            E.settle();
            E.setProp(t.list, 'value', E.symArr('newMessage', E.nat('newMessages')));
            E.flush();
            showsInfo(E, t.now(), expectedInfo(E, E.seqOf(E.v(t.list)), E.v(t.value)));
        },
    },
    {
        name: 'an overtaken check of the info messages',
        run(E) {
            const t = messages(E);
            let left = null;
            E.awaitHook = (p) => {
                if (left) throw new Suspend();
                left = true;
                const again = 1 + E.choose('again', 2);
                for (let i = 0; i < again; i++) {
                    E.setProp(t.value, 'value', E.val('newValue' + i));
                    t.check();
                }
                left = t.now();
                return settled(E, p, 'Val');
            };
            t.check();
            if (left) {
                E.ensure('its answers are dropped', S.eq(t.now().len, left.len));
                const k = E.fresh('k', 'Int');
                if (E.decide(within(k, left.len))) E.ensure('the newer messages stay', E.same(t.now().at(k), left.at(k)));
            }
        },
    },
    {
        name: 'info and rule messages together',
        run(E) {
            const rule = E.symArr('ruleMessage', E.nat('ruleMessages'));
            const t = messages(E, E.ref(rule));
            E.awaitHook = (p) => settled(E, p, 'Val');
            t.check();
            const info = t.now();
            const errors = E.seqOf(rule);
            E.setProp(E.getProp(t.api, 'showRuleMessages'), 'value', S.TRUE);
            const all = t.now();
            E.ensure('all of both: number', S.eq(all.len, S.add(info.len, errors.len)));
            const k = E.fresh('k', 'Int');
            if (E.decide(within(k, info.len))) E.ensure('every info message', S.or(E.same(all.at(k), info.at(k)), E.same(all.at(S.add(errors.len, k)), info.at(k))));
            const j = E.fresh('j', 'Int');
            if (E.decide(within(j, errors.len))) E.ensure('every rule message', S.or(E.same(all.at(S.add(info.len, j)), errors.at(j)), E.same(all.at(j), errors.at(j))));
        },
    },
    {
        name: 'shown messages and validity',
        run(E) {
            const list = E.ref(anyMessages(E, 'Rule'));
            E.stubs.set('call:' + R + '#useInputRules', () => E.obj({ ruleMessages: list, checkRules: E.native('checkRules', () => undef) }));
            const inner = E.ref(E.arr([]));
            const value = E.ref(E.val('value'));
            const own = S.app('state', [], 'Str');
            const api = E.call(E.get(D + 'input/input-composable.ts', 'useInput'), [E.obj({ emit: E.native('emit', () => undef) }), E.obj({ inputValue: value, modelValue: E.ref(E.val('model')), state: E.ref(own) })]);
            const n = S.app('shownRule', [], 'Int');
            const ok = S.eq(n, I(0));
            E.ensure('valid exactly without messages', S.eq(E.v(E.getProp(api, 'valid')), ok));
            E.ensure('no rule message before it is asked for', S.eq(E.seqOf(E.v(E.getProp(api, 'computedMessages'))).len, I(0)));
            E.ensure('no error state before it is asked for', E.same(E.v(E.getProp(api, 'computedState')), own));
            E.ensure('validating answers with the validity', S.eq(E.truthy(E.call(E.getProp(api, 'validate'), [])), ok));
            const all = E.seqOf(E.v(E.getProp(api, 'computedMessages')));
            sameList(E, 'then the rule messages are shown', all, E.seqOf(E.v(list)), sameMsg(E));
            E.ensure('an invalid input is in error', E.same(E.v(E.getProp(api, 'computedState')), S.ite(ok, own, S.str('error'))));
        },
    },
];

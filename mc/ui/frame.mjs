// The frame of the explorers of the page: cases are enumerated in a fixed order and shared out over
// worker threads; a case that hangs is reported like one that fails. Mirrors mc/core.

import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { mkdirSync, readFileSync, writeFileSync } from 'node:fs';
import { fileURLToPath } from 'node:url';
import { cpus } from 'node:os';

const STATES = 1_000_000;

export class Stats {
    constructor() {
        this.transitions = 0;
        this.states = new Set();
        this.capped = false;
        this.outcomes = {};
    }
    step() { this.transitions += 1; }
    state(text) {
        if (this.states.size >= STATES) { this.capped = true; return; }
        let a = 0x811c9dc5;
        let b = 0x1000193;
        for (let i = 0; i < text.length; i += 1) {
            a = Math.imul(a ^ text.charCodeAt(i), 0x01000193);
            b = Math.imul(b ^ text.charCodeAt(i), 0x85ebca6b);
        }
        this.states.add((a >>> 0) * 0x100000 + ((b >>> 0) & 0xfffff));
    }
    outcome(name) { this.outcomes[name] = (this.outcomes[name] ?? 0) + 1; }
}

class Space {
    constructor(tier, wanted) {
        this.tier = tier;
        this.wanted = wanted;
        this.next = 0;
        this.done = 0;
        this.stats = new Stats();
        this.violations = [];
        this.samples = [];
        this.journal = null;
    }
    get quick() { return this.tier === 'quick'; }
    pick(a, b) { return this.quick ? a : b; }
    case(describe, run) {
        const index = this.next;
        this.next += 1;
        if (!this.wanted(index) || this.violations.length >= 20) return;
        if (this.journal) { this.journal[0] = index + 1; this.journal[1] += 1; }
        this.done += 1;
        if (this.done === 1 || (this.done % 5000 === 0 && this.samples.length < 4)) this.samples.push(describe());
        try {
            run(this.stats);
        } catch (e) {
            this.violations.push({ index, description: describe(), message: e instanceof Found ? e.message : `${e?.name ?? ''} ${e?.message ?? e}` });
        }
    }
    // every sequence of exactly `length` numbers below `n`
    product(n, length, visit) {
        const digits = new Array(length).fill(0);
        for (;;) {
            visit(digits.slice());
            let i = length - 1;
            while (i >= 0 && digits[i] === n - 1) { digits[i] = 0; i -= 1; }
            if (i < 0) return;
            digits[i] += 1;
        }
    }
}

/// What a check throws when the property does not hold.
export class Found extends Error {}
export const demand = (condition, message) => { if (!condition) throw new Found(typeof message === 'function' ? message() : message); };

const line = (text) => String(text).replace(/\s+/g, ' ').trim();

export async function main(properties, url) {
    if (!isMainThread) {
        const { id, tier, shard, of, journal } = workerData;
        const space = new Space(tier, (i) => i % of === shard);
        space.journal = new Int32Array(journal);
        properties[id].run(space);
        parentPort.postMessage({
            total: space.next, done: space.done, transitions: space.stats.transitions, states: [...space.stats.states], capped: space.stats.capped,
            outcomes: space.stats.outcomes, violations: space.violations, samples: space.samples,
        });
        return;
    }
    const [id, tier, option, number] = process.argv.slice(2);
    const property = properties[id];
    if (!property || !['quick', 'thorough'].includes(tier)) { console.error('usage: main.mjs <property> quick|thorough [--replay <case>]'); process.exit(2); }
    const verif = process.env.MC_VERIF;
    if (option === '--replay') {
        const space = new Space(tier, (i) => i === Number(number));
        property.run(space);
        for (const v of space.violations) console.log(`VIOLATION property=${id} replay=case-${v.index}\n  case: ${v.description}\n  what: ${v.message}`);
        if (space.violations.length === 0) console.log('the property holds in this case');
        process.exit(space.violations.length ? 1 : 0);
    }
    const started = Date.now();
    const workers = Math.max(1, Math.min(8, cpus().length));
    const results = [];
    let failed = 0;
    await Promise.all(Array.from({ length: workers }, (_, shard) => new Promise((resolve) => {
        const journal = new SharedArrayBuffer(8);
        const view = new Int32Array(journal);
        const worker = new Worker(fileURLToPath(url), { argv: [], workerData: { id, tier, shard, of: workers, journal } });
        let seen = -1;
        let since = Date.now();
        const watch = setInterval(() => {
            if (view[1] !== seen) { seen = view[1]; since = Date.now(); return; }
            if (Date.now() - since < 45_000 || view[0] === 0) return;
            clearInterval(watch);
            results.push({ total: 0, done: 0, transitions: 0, states: [], outcomes: {}, samples: [], stopped: true,
                violations: [{ index: view[0] - 1, description: `case number ${view[0] - 1}`, message: 'did not end' }] });
            worker.terminate().then(resolve);
        }, 1000);
        worker.on('message', (m) => { results.push(m); });
        worker.on('error', (e) => { clearInterval(watch); console.error(e); failed += 1; resolve(); });
        worker.on('exit', () => { clearInterval(watch); resolve(); });
    })));
    const known = readFileSync(`${verif}/known_findings.txt`, 'utf8').split('\n')
        .filter((l) => l.startsWith(`known: property=${id} `)).map((l) => l.slice(`known: property=${id} `.length).trim());
    const violations = results.flatMap((r) => r.violations).sort((a, b) => a.index - b.index);
    const listed = violations.filter((v) => known.includes(line(v.description)));
    const fresh = violations.filter((v) => !known.includes(line(v.description)));
    for (const v of listed) console.log(`KNOWN-FINDING: property=${id} ${line(v.description)} -- ${line(v.message).slice(0, 200)}`);
    mkdirSync(`${verif}/replay`, { recursive: true });
    for (const v of fresh.slice(0, 10)) {
        const path = `${verif}/replay/${id}_${tier}_${v.index}.txt`;
        writeFileSync(path, `property: ${id}\ntier: ${tier}\ncase number: ${v.index}\ncase: ${v.description}\nviolation: ${v.message}\nreplay with: ${verif}/check.sh ${id} replay-${tier} ${v.index}\n`);
        console.log(`VIOLATION property=${id} replay=${path}`);
        console.log(`  case: ${line(v.description).slice(0, 400)}`);
        console.log(`  what: ${line(v.message).slice(0, 600)}`);
    }
    const states = new Set();
    for (const r of results) for (const s of r.states) states.add(s);
    const outcomes = {};
    for (const r of results) for (const [k, n] of Object.entries(r.outcomes)) outcomes[k] = (outcomes[k] ?? 0) + n;
    const total = Math.max(0, ...results.map((r) => r.total));
    const done = results.reduce((n, r) => n + r.done, 0);
    const wall = (Date.now() - started) / 1000;
    const evidence = {
        property: id, tier, seed: Number(process.env.VERIF_SEED ?? 1) || 1, level: 'model_checking',
        coverage: {
            states: states.size, states_capped: results.some((r) => r.capped), transitions: results.reduce((n, r) => n + r.transitions, 0),
            traces_validated_against_impl: done, cases_in_space: total, exhaustive: done === total && failed === 0,
            space: property.space, observed_outcomes: outcomes, samples: results.flatMap((r) => r.samples).slice(0, 8),
        },
        assumptions: property.assumptions, wall_s: Math.round(wall * 100) / 100, violations: fresh.length, known_findings_seen: listed.length, errors: failed,
    };
    mkdirSync(`${verif}/evidence`, { recursive: true });
    writeFileSync(`${verif}/evidence/${id}.json`, JSON.stringify(evidence, null, 1) + '\n');
    console.log(`${id} ${tier}: ${done} of ${total} cases, ${evidence.coverage.transitions} transitions, ${states.size} states, ${fresh.length} violations, ${wall.toFixed(1)} s`);
    process.exit(failed ? 2 : fresh.length ? 1 : 0);
}

// C24: the web page shows the scene, whatever the order in which answers and
// events reach it. Usage: check.mjs quick|thorough, or MC_REPLAY=<file>.
import { execFileSync, fork } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { Run, Server } from "./page.mjs";

const EVIDENCE = "/verif/evidence";

// ---- operations on the server ----------------------------------------------
const req = (p, pose) => ({ Req: { path: p, body: pose ? JSON.stringify(pose) : null } });
const P = [
  { x: 100, y: 20, z: 300, yaw: 10, pitch: 5, roll: -7 },
  { x: -250, y: 0, z: 120, yaw: -90, pitch: 30, roll: 0 },
  { x: 0, y: 140, z: -300, yaw: 180, pitch: -45, roll: 90 },
  { x: 410, y: 60, z: -90, yaw: 45, pitch: 0, roll: 3 },
  { x: 0, y: 0, z: 0, yaw: 0, pitch: 0, roll: 0 },
];
const A = "00:0A", B = "12:34", E = "01:02:03:04:05:06:07:08";
const create = (m, p) => req(`/create-anchor/${m}`, p);
const destroy = (m) => req(`/destroy-anchor/${m}`);
const move = (m, p) => req(`/set-position/${m}`, p);
const CONNECT = "Connect", CLOSE = { Close: 0 };

const SETUPS = {
  empty: [],
  one: [create(A, P[0])],
  two: [create(A, P[0]), create(B, P[1])],
  host: [CONNECT, create(A, P[0])],
  measured: [create(A, P[0]), create(B, P[1]), move(A, P[3])],
  three: [create(A, P[0]), create(B, P[1]), create(E, P[2])],
};
const OPS = {
  empty: [CONNECT, create(A, P[0]), create(E, P[1])],
  one: [CONNECT, create(B, P[1]), destroy(A), move(A, P[2]), move(A, P[4]), create(A, P[1])],
  two: [destroy(A), move(A, P[2]), move(B, P[3]), create(A, P[3]), create(E, P[2]), destroy(B)],
  host: [CLOSE, move("00:00", P[1]), move(A, P[2]), destroy(A), create(A, P[3]), CONNECT],
  measured: [destroy(A), move(B, P[2]), create(A, P[0])],
  three: [destroy(B), move(E, P[3])],
};
function sequences(alphabet, depth) {
  return depth === 0 ? [[]] : sequences(alphabet, depth - 1).flatMap((s) => alphabet.map((o) => [...s, o]));
}

/** [name, bounds, scenarios]; a scenario is {setup, ops, user, drops}. */
function families(tier) {
  const t = tier === "thorough";
  const all = (depth, names = Object.keys(SETUPS)) =>
    names.flatMap((n) => sequences(OPS[n], depth).map((ops) => ({ setup: SETUPS[n], ops })));
  const v = [
    ["load", "one operation on the server while the page is loaded, 6 scenes", [...all(0), ...all(1)]],
    ["load, two operations", "two operations on the server while the page is loaded", all(2, t ? undefined : ["empty", "one", "two", "host"])],
    ["reconnect", "the event stream breaks once, one operation", all(1, t ? undefined : ["empty", "one", "host"]).map((s) => ({ ...s, drops: 1 }))],
  ];
  const users = [
    [["down", 0], ["drag", -200, 150], ["up"]],
    [["down", 1], ["drag", 33, -44], ["drag", 310, 40], ["up"]],
    [["down", 0], ["up"], ["turn", "yaw", -33]],
    [["down", 0], ["up"], ["turn", "pitch", 21], ["turn", "roll", -120]],
    [["down", 0], ["up"], ["lift", -15], ["up"]],
    [["down", 0], ["up"], ["lift", 200], ["up"]],
    [["down", 0], ["up"], ["down", 1], ["up"], ["empty"]],
    [["down", 0], ["up"], ["turn", "yaw", 0], ["down", 1], ["up"], ["turn", "roll", 0]],
    [["down", 0], ["up"], ["turn", "pitch", 0]],
    [["down", 0], ["drag", 800, -700], ["drag", -900, 650], ["up"]],
  ];
  const short = [users[0], users[2]];
  v.push(["user", "a device is moved or turned on the page", [
    ...users.map((user) => ({ setup: SETUPS.two, ops: [], user, quiet: true })),
    ...[...users.slice(0, 6), users[9]].map((user) => ({ setup: SETUPS.one, ops: [], user, after: true })),
    ...(t ? users : users.slice(0, 1)).map((user) => ({ setup: SETUPS.two, ops: [], user, after: true })),
  ]]);
  v.push(["user at any time", "a device is moved while the page is loaded", (t ? users : users.slice(0, 6)).map((user) => ({ setup: SETUPS.one, ops: [], user }))]);
  v.push([
    "user and server",
    "a device is moved or turned on the page while one operation happens on the server",
    OPS.one.flatMap((o) => (t ? users : short).map((user) => ({ setup: SETUPS.one, ops: [o], user, after: !t }))),
  ]);
  v.push([
    "neighbors of a selected device",
    "three devices: one is moved, which measures all of them, then one is moved or removed, one is selected",
    [0, 1, 2].flatMap((k) =>
      [destroy(A), destroy(B), move(A, P[1]), ...(t ? [move(B, P[0]), destroy(E), create(B, P[3])] : [])].map((o) => ({
        setup: SETUPS.three, ops: [move(E, P[3]), o], user: [["down", k], ["up"]], settled: true,
      })),
    ),
  ]);
  v.push([
    "selected device and server",
    "a device is selected while one operation (or two) happens on the server",
    ["one", "two", "host", "measured", "three"].flatMap((n) =>
      [...sequences(OPS[n], 1), ...(t ? sequences(OPS[n], 2) : [])].flatMap((ops) =>
        [0, 1].map((k) => ({ setup: SETUPS[n], ops, user: [["down", k], ["up"]], after: true })),
      ),
    ),
  ]);
  const many = Array.from("ABCDEFGHIJKL", (c, i) => [c, { x: 40 * i - 200, y: 10 * i, z: 330 - 55 * i, yaw: i, pitch: -i, roll: 2 * i }]);
  v.push([
    "many devices",
    "12 anchors: each is selected (thorough: and another)",
    [...many.keys()].map((k) => [k]).concat(t ? [[0, 10], [11, 1]] : []).map((ks) => ({
      setup: many.map(([c, p]) => create(`0${c < "K" ? 1 : 2}:${c.charCodeAt(0).toString(16).toUpperCase()}`, p)),
      ops: [],
      user: ks.flatMap((k) => [["down", k], ["up"]]),
      quiet: true,
    })),
  ]);
  if (t) v.push(["load, three operations", "three operations on the server while the page is loaded", all(3, ["empty", "one"])]);
  if (process.env.MC_ONLY) return v.filter((f) => f[0] === process.env.MC_ONLY);
  return v;
}

// ---- the real server's side --------------------------------------------------
// Those of these that the server has are the files of the page.
const PAGES = ["/", ...fs
  .readdirSync("/repo/static", { recursive: true, withFileTypes: true })
  .filter((f) => f.isFile())
  .map((f) => "/" + path.relative("/repo/static", path.join(f.parentPath ?? f.path, f.name)))];

/** Runs every list of operations on the real server. */
function transcribe(lists) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "mc-js-"));
  try {
    fs.writeFileSync(path.join(dir, "in.json"), JSON.stringify({ lists, files: PAGES }));
    execFileSync("/verif/target/mc-net/debug/mc-net", [], {
      env: { ...process.env, MC_TRANSCRIPTS: path.join(dir, "in.json"), MC_OUT: path.join(dir, "out.json"), RUST_LOG: "off" },
      stdio: ["ignore", "inherit", "inherit"],
    });
    return JSON.parse(fs.readFileSync(path.join(dir, "out.json")));
  } finally {
    fs.rmSync(dir, { recursive: true, force: true });
  }
}

const canonical = (body) =>
  JSON.stringify(
    JSON.parse(body)
      .devices.map((d) => Object.fromEntries(Object.entries(d).sort()))
      .sort((a, b) => (a.mac_address < b.mac_address ? -1 : 1)),
  );

/** The model of the server (its scene is what its events say) against a transcript. */
function conforms(t) {
  if (t.error) return t.error;
  const s = new Server();
  for (const [i, step] of t.steps.entries()) {
    for (const e of step.events) s.emit(e);
    if (canonical(s.state()) !== canonical(step.state)) return `after step ${i}: state ${step.state}, events give ${s.state()}`;
  }
  return null;
}

// ---- exploration ---------------------------------------------------------------
/** All schedules that begin with a prefix; beyond a budget, what is left. */
async function explore(files, sc, deadline, prefix) {
  const stats = { executions: 0, steps: 0, pruned: 0, outcomes: new Set(), complete: true, errors: 0 };
  let choices = prefix;
  for (;;) {
    const run = new Run(files, sc);
    const { widths, taken } = await run.execute(choices);
    stats.executions++;
    stats.steps += taken.length;
    if (run.pruned) stats.pruned++;
    stats.errors += run.browser.errors.length;
    stats.outcomes.add(run.server.state() + run.posts.map((p) => p.url + p.body).join());
    if (run.bad) return { ...stats, outcomes: stats.outcomes.size, bad: run.bad, choices: taken };
    let i = widths.length - 1;
    while (i >= prefix.length && taken[i] + 1 >= widths[i]) i--;
    if (i < prefix.length) break;
    if (stats.executions >= 2000) {
      stats.left = [];
      for (let k = prefix.length; k <= i; k++)
        for (let c = taken[k] + 1; c < widths[k]; c++) stats.left.push([...taken.slice(0, k), c]);
      break;
    }
    choices = [...taken.slice(0, i), taken[i] + 1];
    if (Date.now() > deadline) {
      stats.complete = false;
      break;
    }
  }
  return { ...stats, outcomes: stats.outcomes.size };
}

if (process.env.MC_WORKER) {
  let files;
  process.on("unhandledRejection", () => {});
  process.on("message", async (m) => {
    if (m.files) {
      files = m.files;
      process.send({ ready: true });
      return;
    }
    try {
      process.send({ index: m.index, ...(await explore(files, m.scenario, m.deadline, m.prefix)) });
    } catch (e) {
      process.send({ index: m.index, crash: String(e?.stack ?? e) });
    }
  });
} else await main();

async function pool(files, scenarios, deadline, onResult) {
  const jobs = scenarios.map((_, index) => ({ index, prefix: [] }));
  const idle = [];
  let busy = 0, stop = false;
  const workers = Array.from({ length: os.availableParallelism() }, () =>
    fork(process.argv[1], [], { env: { ...process.env, MC_WORKER: "1" }, execArgv: ["--no-warnings"] }),
  );
  try {
    await new Promise((resolve, reject) => {
      const give = () => {
        while (!stop && idle.length && jobs.length) {
          const j = jobs.shift();
          busy++;
          idle.pop().send({ ...j, scenario: scenarios[j.index], deadline });
        }
        if (!busy && (stop || !jobs.length)) resolve();
      };
      for (const w of workers) {
        w.on("message", (m) => {
          if (!m.ready) busy--;
          if (m.crash) return reject(new Error(m.crash));
          if (!m.ready) {
            for (const prefix of m.left ?? []) jobs.push({ index: m.index, prefix });
            if (onResult(m)) stop = true;
          }
          idle.push(w);
          give();
        });
        w.on("error", reject);
        w.on("exit", (code) => code && reject(new Error(`worker ended with ${code}`)));
        w.send({ files });
      }
    });
  } finally {
    workers.forEach((w) => w.removeAllListeners("exit").kill());
  }
}

async function main() {
  process.on("unhandledRejection", () => {});
  if (process.env.MC_REPLAY) return replay(process.env.MC_REPLAY);
  const tier = process.argv[2] ?? "quick";
  const t0 = Date.now();
  const deadline = t0 + (tier === "thorough" ? 840 : 400) * 1000;
  const fams = families(tier);
  // One transcript for every list of operations.
  const lists = new Map();
  const key = (sc) => JSON.stringify([sc.setup, sc.ops]);
  for (const [, , scs] of fams) for (const sc of scs) lists.set(key(sc), [...sc.setup, ...sc.ops]);
  const keys = [...lists.keys()];
  const out = transcribe([...lists.values()]);
  if (process.env.MC_INDEX) out.files["/"] = fs.readFileSync(process.env.MC_INDEX, "utf8");
  const index = new Map(keys.map((k, i) => [k, i]));
  const violations = [];
  for (const t of out.transcripts) {
    const bad = conforms(t);
    if (bad) {
      violations.push({ family: "server", what: bad, replay: { kind: "page", server: bad } });
      break;
    }
  }
  const total = { executions: 0, steps: 0, pruned: 0, outcomes: 0, errors: 0 };
  const reports = [];
  let exhaustive = true;
  for (const [name, bounds, scs] of fams) {
    if (violations.length) break;
    const f0 = Date.now();
    const ready = scs.map((sc) => {
      const steps = out.transcripts[index.get(key(sc))].steps.map((s) => s.events);
      return { ...sc, names: { setup: sc.setup, ops: sc.ops }, setup: steps.slice(0, sc.setup.length), ops: steps.slice(sc.setup.length) };
    });
    const sub = { executions: 0, steps: 0, pruned: 0, outcomes: 0, errors: 0 };
    let complete = true;
    await pool(out.files, ready, deadline, (r) => {
      for (const k of Object.keys(sub)) sub[k] += r[k];
      complete &&= r.complete;
      if (r.bad) violations.push({ family: name, what: r.bad, replay: { kind: "page", scenario: ready[r.index], choices: r.choices } });
      return !!r.bad;
    });
    for (const k of Object.keys(total)) total[k] += sub[k];
    exhaustive &&= complete;
    reports.push({
      name, bounds, scenarios: scs.length, schedules: sub.executions - sub.pruned, redundant_prefixes: sub.pruned,
      steps: sub.steps, script_errors: sub.errors, complete: complete && !violations.length, wall_s: (Date.now() - f0) / 1000,
    });
    if (process.env.MC_VERBOSE) console.error(`${((Date.now() - f0) / 1000).toFixed(1).padStart(6)}s ${sub.executions} (${sub.pruned} redundant) ${name}, ${sub.errors} script errors`);
  }
  fs.mkdirSync(`${EVIDENCE}/replay`, { recursive: true });
  const wall = (Date.now() - t0) / 1000;
  fs.writeFileSync(
    `${EVIDENCE}/C24.json`,
    JSON.stringify(
      {
        property: "C24", tier, seed: Number(process.env.VERIF_SEED ?? 1), level: "model_checking",
        coverage: {
          states: total.outcomes,
          transitions: total.steps,
          traces_validated_against_impl: out.transcripts.length,
          schedules: total.executions - total.pruned,
          exhaustive: exhaustive && !violations.length,
          scenarios: reports,
          samples: fams.slice(0, 2).map(([name, , s]) => ({ family: name, operations: [...s[s.length - 1].setup, ...s[s.length - 1].ops] })),
        },
        assumptions: [
          "lit, the DOM, fetch and EventSource are stand-ins (mc-js/dom.mjs, page.mjs); the page's own modules are the served ones",
          "requests of the page are answered by a model of the scene, checked against transcripts of the real server",
        ],
        wall_s: wall, violations: violations.length,
      },
      null, 1,
    ),
  );
  console.log(`C24 ${tier}: schedules=${total.executions - total.pruned} steps=${total.steps} transcripts=${out.transcripts.length} exhaustive=${exhaustive} wall=${wall.toFixed(1)}s`);
  violations.slice(0, 3).forEach((v, i) => {
    const file = `${EVIDENCE}/replay/C24-${i}.json`;
    fs.writeFileSync(file, JSON.stringify({ property: "C24", what: v.what, replay: v.replay, files: out.files }, null, 1));
    console.log(`[${v.family}] ${v.what.slice(0, 1500)}`);
    console.log(`VIOLATION property=C24 replay=${file}`);
  });
  process.exitCode = violations.length ? 1 : 0;
}

async function replay(file) {
  const v = JSON.parse(fs.readFileSync(file));
  console.log(v.what);
  if (!v.replay.scenario) return;
  const run = new Run(v.files, v.replay.scenario);
  console.log(JSON.stringify(v.replay.scenario.names));
  await run.execute(v.replay.choices, true);
  for (const l of run.log) console.log("  " + l);
  for (const e of run.browser.errors) console.log("  script error: " + e.split("\n")[0]);
  console.log(run.bad ?? "as specified");
}

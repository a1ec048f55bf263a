//! Programs and numbers, drawn from the run's choices.
use serde_json::{json, Value};
use simcore::choose;

pub fn number() -> f64 {
    match choose(5) { 0 => choose(10) as f64, 1 => choose(1000) as f64 / 8.0 - 60.0, 2 => -(choose(10) as f64), 3 => choose(100000) as f64 / 1000.0, _ => choose(3) as f64 }
}
/// A chain of operators between one input and one output, at most one message out per message in.
pub fn program() -> Value {
    let mut ops = vec![];
    let mut chain = vec![];
    let input = choose(8) != 7;
    if input { ops.push(json!({"id": "in", "type": "Input"})); chain.push("in".to_string()); }
    for i in 0..choose(3) + (!input) as usize {
        let id = format!("op{}", i);
        let mut o = match choose(14) {
            0 | 11 => json!({"type": "CumulativeSum"}),
            1 => json!({"type": "MovingAverage", "n": 1 + choose(3)}),
            2 | 12 => json!({"type": "Count"}),
            3 => json!({"type": "Scale", "value": ([2.0, 0.5, -1.0][choose(3)])}),
            4 => json!({"type": "GreaterThan", "value": number()}),
            5 => json!({"type": "Difference"}),
            6 | 13 => json!({"type": "Add", "value": number()}),
            7 => json!({"type": "StandardDeviation", "n": 2 + choose(2)}),
            8 => json!({"type": "PeakDetector", "n": 3}),
            9 => json!({"type": "LessThan", "value": number()}),
            _ => json!({"type": "TimeShift", "dt": 1, "times": 1 + choose(3)}),
        };
        o["id"] = json!(id);
        ops.push(o);
        chain.push(id);
    }
    ops.push(json!({"id": "out", "type": "Output"}));
    chain.push("out".into());
    let conns: Vec<Value> = chain.windows(2).map(|w| json!({"from": w[0], "to": w[1]})).collect();
    json!({"title": "t", "apiVersion": "v1", "entryNode": chain[0], "entryOperator": chain[0], "output": {"out": ["o1"]}, "operators": ops, "connections": conns})
}

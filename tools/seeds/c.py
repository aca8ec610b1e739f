B('c24', 'C24', [('src/Nn.rs', 'for _i in 0..nNeuronsLayer0 {', 'for _i in 0..nNeuronsLayer0.min(32) {')],
 'a network with more than 32 neurons in the first layer',
 'the second layer ignores neurons and uses the wrong parameters',
 '''let ps: Vec<f64> = (0..400).map(|i| i as f64).collect();
 let mut idx = 0;
 let net = nar20_1::Nn::buildNnFromParameters(&mut idx, &ps, 2, 0, 40, 1, None);
 assert_eq!(net.neuronsLayer1[0].weights.len(), 40);
 assert_eq!(idx, 40 * 3 + 41);''')
B('c25', 'C25', [('src/EnvPong3.rs', 'if env.ballY == 0 || env.ballX == 0 || env.ballX >= env.szX-1 {', 'if env.ballY == 0 || env.ballX == 0 || env.ballX > env.szX-1 {')],
 'the ball reaches exactly the right border above the ground',
 'no new ball is started',
 '''let mut e = nar20_1::EnvPong3::makeEnvState();
 e.ballX = e.szX - 2; e.ballY = 5; e.vX = 1; e.vY = 1; e.t = 0; e.verbosity = 0;
 let mut nar = createNar();
 nar20_1::EnvPong3::simStep(&mut e, &mut nar.procNar.rng);
 assert!(e.was_ball_spawned);''')
B('c26', 'C26', [('src/Map2d.rs', '''    for iy in 0..sy {
        for ix in 0..sx {''', '''    for iy in 0..sy {
        for ix in 0..sx.min(m.w) {''')],
 'a cut which is wider than the image and begins left of it',
 'the columns at the right side of the image are missing in the cut',
 '''use nar20_1::Map2d::*;
 let mut m = makeMap2d(2, 3);
 for i in 0..6 { m.arr[i] = i as f64 + 1.0; }
 let c = crop(&m, -2, 0, 5, 2);
 assert_eq!(c.arr, vec![0.0, 0.0, 1.0, 2.0, 3.0, 0.0, 0.0, 4.0, 5.0, 6.0]);''')
B('c27', 'C27', [('src/ModVisionD.rs', '                if add2 {\n                    // revise evidence', '                if add2 && sim < 1.0 {\n                    // revise evidence')],
 'an image which is exactly the prototype is perceived again',
 'the evidence of the image isn\'t counted',
 '''use nar20_1::ModVisionD::*;
 use nar20_1::Map2d::makeMap2d;
 let mut cls = RealPrototypeClassifier{prototypes: vec![]};
 let s = vec![Channel{v: makeMap2d(2, 2)}];
 classify(&mut cls, &s, 1, true);
 classify(&mut cls, &s, 2, true);
 assert_eq!(cls.prototypes.len(), 1);
 assert_eq!((cls.prototypes[0].evidence_count, cls.prototypes[0].last_use_time), (2, 2));''')
B('c28', 'C28', [('src/ModNlpA.rs', 'log(&format!("//REL {}({}, {})", stimulus_words[3], stimulus_words[2], stimulus_words[4]));', 'if extracted_relations.len() == 0 {current_stimulus.push(pos_ret_codes() + current_action_idx); continue;}')],
 'the third relation action is the first action for a sentence',
 'the relation isn\'t told to the reasoner',
 '''std::env::set_current_dir(std::env::args().nth(1).unwrap()).unwrap();
 mkdb();
 let w: Vec<String> = ["Tim", "and", "Tom", "are", "fat"].iter().map(|s| s.to_string()).collect();
 let (log, rel) = nar20_1::ModNlpA::network_run(&w);
 assert_eq!(log[0], 3);
 assert!(rel.len() >= 1 && rel[0].head == "are" && rel[0].args == vec!["Tom".to_string(), "fat".to_string()]);''',
 pre='''fn mkdb() {
 let mut sql = String::from("create table weights (id integer primary key AUTOINCREMENT, nnid integer not null, layer integer not null, neuronidx integer not null, valueid integer not null, value real not null);\\n");
 let mut put = |l: i64, n: i64, v: i64, x: f64| sql += &format!("INSERT INTO weights (nnid,layer,neuronidx,valueid,value) values (0,{},{},{},{});\\n", l, n, v, x);
 put(0, 0, -1, 0.0);
 for k in 0..12 * 34 { put(0, 0, k, if k == 11 * 34 + 7 { 1.0 } else { 0.0 }); }
 for n in 0..15 { put(1, n, -1, 0.0); put(1, n, 0, if n == 3 { 1.0 } else { 0.0 }); }
 std::fs::write("m.sql", &sql).unwrap();
 let py = "import sqlite3;c=sqlite3.connect('nn_nlp0.db');c.executescript(open('m.sql').read());c.commit()";
 assert!(std::process::Command::new("python3").arg("-c").arg(py).status().unwrap().success());
}''')
B('c29', 'C29', [('src/bin/main.rs', 'acc /= (nRuns as f64); // calc average', 'acc /= (cntEvals.max(1) as f64); // calc average')],
 'the benchmark with more than one file',
 'the score isn\'t the average of the runs',
 '''let a: Vec<String> = std::env::args().collect();
 let p = format!("{}/k.nal", a[1]);
 std::fs::write(&p, "<a --> b>.\\n<a --> b>?\\n").unwrap();
 let out = std::process::Command::new(&a[2]).args(["bQA2", "4", &p, &p, &p]).output().unwrap();
 let o = String::from_utf8_lossy(&out.stdout).to_string();
 let sum: f64 = o.lines().filter_map(|l| l.strip_prefix("CYCLES ").and_then(|v| v.parse::<f64>().ok())).map(|c| (-0.002 * c).exp()).sum();
 let score: f64 = o.lines().find_map(|l| l.strip_prefix("SCORE ")).unwrap().parse().unwrap();
 assert!(sum > 0.0 && near(score, sum / 4.0), "{} {}", score, sum);''')

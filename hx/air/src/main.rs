fn main() {
    let mut input = String::new();
    match std::env::args().nth(1).as_deref() {
        None => println!("{}", mozak_circuits::rsx_access::dump()),
        Some("eval") => {
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut input).unwrap();
            print!("{}", mozak_circuits::rsx_access::eval(&input));
        }
        Some("traces") => print!("{}", mozak_circuits::rsx_access::traces(std::env::args().nth(2).map_or(4, |x| x.parse().unwrap()))),
        Some(x) => panic!("unknown mode {x}"),
    }
}

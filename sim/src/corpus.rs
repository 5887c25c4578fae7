//! Sources of /repo/source with the verdicts that /repo/tests/lib.rs gives them (copied, so that the check is independent of later edits there).
pub const CORPUS: &[(&str, bool, &str)] = &[
(r"source/syntax/main.dyon", true, r####"fn main() {
}
"####),
(r"source/syntax/args.dyon", true, r####"
fn conversation(me, you) {

}
"####),
(r"source/syntax/id.dyon", true, r####"
fn id(x: 'return) -> {
    return x
}
"####),
(r"source/syntax/call.dyon", true, r####"fn foo(x: 'return) -> {
    return x
}

fn bar(x: 'return) -> {
    return foo(x)
}
"####),
(r"source/syntax/array.dyon", true, r####"fn main() {
    a := [1, 2, 3]
    b := [3; 5]
    c := [[1, 2]; 3]
    println(a)
    println(b)
    println(c)
}
"####),
(r"source/syntax/prop.dyon", true, r####"fn reset(mut pos) {
    pos.x = 0
    pos.y = 0
}
"####),
(r"source/syntax/for.dyon", true, r####"fn foo(x) -> {
    y := 0
    for i := 0; i < x; i += 1 {
        y += i
    }
    return clone(y)
}
"####),
(r"source/syntax/compare_pass_1.dyon", true, r####"fn ls(x, y) -> {
    return x < y
}
"####),
(r"source/syntax/compare_pass_2.dyon", true, r####"fn main() {
    println(foo(2))
}

foo(a: f64) = {
    a < 3
}
"####),
(r"source/syntax/compare_fail_1.dyon", false, r####"fn main() {
    println(foo(2))
}

foo(a: f64) = {
    a
    < 3
}
"####),
(r"source/syntax/add_pass_1.dyon", true, r####"fn add(x, y) -> {
    return x + y + 3
}
"####),
(r"source/syntax/add_pass_2.dyon", true, r####"fn main() {
    println(foo(2))
}

foo(a: f64) = {
    a + 3
}
"####),
(r"source/syntax/add_pass_3.dyon", true, r####"fn main() {
    println(foo(2))
}

foo(a: f64) = {
    a+3
}
"####),
(r"source/syntax/add_fail_1.dyon", false, r####"fn main() {
    println(foo(2))
}

foo(a: f64) = {
    a
    + 3
}
"####),
(r"source/syntax/mul.dyon", true, r####"fn mul(x, y) -> {
    return 3 * x * y
}
"####),
(r"source/syntax/pow.dyon", true, r####"fn pow(x, y) -> {
    return x^y
}
"####),
(r"source/syntax/add_mul.dyon", true, r####"fn add_mul(x, y) -> {
    return x + y * 3
}
"####),
(r"source/syntax/mul_add.dyon", true, r####"fn add_mul(x, y) -> {
    return x * y + 3
}
"####),
(r"source/syntax/pos_len.dyon", true, r####"fn len(p) -> {
    return sqrt(p.x^2 + p.y^2)
}
"####),
(r"source/syntax/if.dyon", true, r####"fn main() {
    x := 0
    y := 1
    z := if false { x } else { y }
    // z := { y }
    // z := y
    // debug()
    println(z)
}
"####),
(r"source/syntax/else_if.dyon", true, r####"fn main() {
    x := if false {0} else if true {1} else {2}
    println(x)
    y := if false {0} else if true {1}
    println(y)

    if false {
    } else if false {
    } else if true {
        println("hi")
    } else {
    }
}
"####),
(r"source/syntax/assign_if.dyon", true, r####"fn main() {
    x := 3
    y := if x < 4 { 0 } else { 1 }
}
"####),
(r"source/syntax/new_pos.dyon", true, r####"fn new() {
    _ := {x: 0, y: 0}
}
"####),
(r"source/syntax/lifetime.dyon", true, r####"fn foo(a: 'return) -> { return a }
// fn foo(a) -> { return a } // ERROR: Argument `a` does not have lifetime `return`

fn main() {
    x := 2
    println(foo(x))
}
"####),
(r"source/syntax/lifetime_2.dyon", false, r####"fn foo(a, b: 'a) {
    a.list = b
}

fn bar(x) {
    y := [3, 4]
    foo(x, y)
}

fn main() {
    x := {list: [1, 2]}
    bar(x)
    z := [5, 6]
    println(x.list)
}
"####),
(r"source/syntax/lifetime_3.dyon", false, r####"fn main() {
    x := {x: {x: 0}}
    for i := 0; i < 1; i += 1
    {
        y := 5
        x.x = {x: y}
    }
    debug()
    println(x.x)
}
"####),
(r"source/syntax/lifetime_4.dyon", false, r####"fn foo(x, y) -> {
    z := {x: x, y: y}
    return z
}

fn main() {
    println(foo(1, 2))
}
"####),
(r"source/syntax/lifetime_5.dyon", false, r####"fn foo(a, b: 'a) {
    a.list = b
}

fn bar(x) {
    y := [3, 4]
    foo(x, y)
}

fn main() {
    z := {list: [1, 2]}
    bar(z)
    println(z.list)
}
"####),
(r"source/syntax/lifetime_6.dyon", true, r####"fn bar(b) -> {
    return clone(b)
}

fn foo(mut a, b) {
    a[0] = bar(b)
}

fn main() {
    a := [0]
    b := 3
    foo(mut a, b)
}
"####),
(r"source/syntax/lifetime_7.dyon", true, r####"fn main() {
    println(foo(3))
}

fn foo(x) -> {
    return 3 == x
}
"####),
(r"source/syntax/lifetime_8.dyon", true, r####"fn main() {
    a := sum i 3 { i }
    b := min i 3 { i }
    c := max i 3 { i }
}
"####),
(r"source/syntax/lifetime_9.dyon", false, r####"fn foo(a: 'b f64, mut b: []) -> {
    b[0] = {a: a}
    debug()
    return 5
}

fn main() {
    y := 5
    x := [{}, 2, 3]
    foo_thread := go foo(y, mut x)
    r := unwrap(join(thread: foo_thread))
    println("r: " + str(r))
}
"####),
(r"source/syntax/lifetime_10.dyon", false, r####"fn foo() -> {
    ph := ["1"]
    ok({
        photo: {
            buf := ph[0]
            buf
        }
    })
}

fn main() {
    println(foo())
}
"####),
(r"source/syntax/lifetime_11.dyon", true, r####"fn main() {
    a := (10, 2)
    c := [1, 2, 3]
    println(foo(xy a, c))
}

fn foo(a, b, c: 'return) -> {
    return c
}
"####),
(r"source/syntax/lifetime_12.dyon", false, r####"translate(x: f64, y: f64, z: f64) =
    [
        [1, 0, 0, x],
        [0, 1, 0, y],
        [0, 0, 1, z],
        [0, 0, 0, 1],
    ]

fn main() {
    a := (1, 2)
    move := translate(xyz a)
    println(move)
}
"####),
(r"source/syntax/lifetime_13.dyon", false, r####"fn main() {
    ~ foo := [[0]]
    x := [1]
    bar(x)
    println(foo)
}

fn bar(x) ~ mut foo {
    foo[0] = x
}
"####),
(r"source/syntax/lifetime_14.dyon", false, r####"fn main() {
    ~ foo := "hi"
    println(foo())
}

fn foo() ~ foo {
    return foo
}
"####),
(r"source/syntax/lifetime_15.dyon", true, r####"fn main() {
    println(fmap([1, 2, 3], \(x) = x * 2))
}

fmap(list: [], f) = sift i { \f(list[i]) }
"####),
(r"source/syntax/lifetime_16.dyon", false, r####"fn main() {
    a := \(x) = x
    println(\a(2))
}
"####),
(r"source/syntax/lifetime_17.dyon", true, r####"fn main() {
    list := [[1, 2], [3, 4]]
    item := 0
    max := max i, j {
        item = list[i][j]
        if item == 4 { continue }
        item
    }
    println(max) // prints `4`
    println(where(max)) // prints `[1, 0]`
}
"####),
(r"source/syntax/lifetime_18.dyon", false, r####"fn main() {
    a := {}
    for i 2 {
        a[str(0)] := {foo: i}
    }
    println(a)
}
"####),
(r"source/syntax/lifetime_19.dyon", false, r####"fn main() {
    a := [0]
    for i 2 {
        a[0] := {foo: i}
    }
    println(a)
}
"####),
(r"source/syntax/lifetime_20.dyon", false, r####"fn main() {
    i := 0
    _ := foo(clone(i))
}

foo(a: 'return f64) = [a]
"####),
(r"source/syntax/insert.dyon", true, r####"fn main() {
    a := {x: 0}
    a.x := "hello"
    println(a.x)

    b := [[0, 1]]
    b[0][1] := "how"
    println(b)

    c := {x: {y: {z: 0}}}
    c.x.y.z := "are you?"
    println(c)
}
"####),
(r"source/syntax/named_call.dyon", true, r####"fn up__to(n) -> {
    x := []
    for i := 0; i < n; i += 1 {
        push(mut x, i)
    }
    return clone(x)
}

fn say__msg_to(msg, person) {
    print(person + "! ")
    println(msg)
}

fn main() {
    n := 3
    println(up(to: n))

    // Normal call syntax.
    say__msg_to("hi!", "you there")
    // Named arguments call syntax.
    say(msg: "hi!", to: "you there")
}
"####),
(r"source/syntax/max_min.dyon", true, r####"fn min__numbers(list: 'return) -> {
    n := len(list)
    if n == 0 { return [] }
    return = list[0]
    for i := 1; i < n; i += 1 {
        if return > list[i] {
            return = list[i]
        }
    }
}

fn max__numbers(list: 'return) -> {
    n := len(list)
    if n == 0 { return [] }
    return = list[0]
    for i := 1; i < n; i += 1 {
        if return < list[i] {
            return = list[i]
        }
    }
}

fn main() {
    list := [5, 3, 20, -100, 7]
    // list := []
    println(min(numbers: list))
    println(max(numbers: list))
}
"####),
(r"source/syntax/return_void.dyon", true, r####"fn foo() -> {
    return = "hi!"
}

fn main() {
    x := foo()
    println(x)
    for i := 0; i < 100; i += 1 {
        if i > 14 {
            return
        }
        println(i)
    }
}
"####),
(r"source/syntax/return_void_2.dyon", true, r####"fn main() {
    return
    a := 2
}
"####),
(r"source/syntax/return_void_3.dyon", true, r####"fn main() {
    foo()
}

fn foo() {
    return
    println("hi")
}
"####),
(r"source/syntax/typeof.dyon", true, r####"fn typeof_return() -> {
    if typeof(return) == "return" {
        println("return OK")
    }
    return = 2
    if typeof(return) == "number" {
        println("return is number OK")
    }
}

fn main() {
    if typeof("hi") == "string" {
        println("string OK")
    }
    if typeof(3) == "number" {
        println("number OK")
    }
    if typeof([]) == "array" {
        println("array OK")
    }
    if typeof({}) == "object" {
        println("object OK")
    }
    if typeof(true) == "boolean" {
        println("boolean OK")
    }
    println(typeof_return())
    return
}
"####),
(r"source/syntax/load_module.dyon", true, r####"fn main() {
    module := unwrap(load("source/module.rs"))
    call(module, "hello_world", [])
    call(module, "say", ["hi!"])
    call(module, "say_msg_to", ["hi", "john"])

    module2 := unwrap(load(source: "source/module2.rs", imports: [module]))
    call(module2, "main", [])
}
"####),
(r"source/syntax/println_colon.dyon", true, r####"fn main() {
    println(":")
}
"####),
(r"source/syntax/neg.dyon", true, r####"fn foo() -> {
    x := 2
    return exp(-x)
}
"####),
(r"source/syntax/some.dyon", true, r####"fn foo() -> {
    x := [5]
    return some(x)
}

fn main() {
    x := foo()
    println(x)
}
"####),
(r"source/syntax/pop.dyon", true, r####"fn main() {
    println(foo())
}

fn foo() -> {
    x := [1, 2, 3]
    return clone(pop(mut x))
}
"####),
(r"source/syntax/accessor.dyon", true, r####"/*
Same name can be reused for functions with different mutability pattern.
*/

fn new_window() -> {
    return {title: "(no title)"}
}

fn title(window: 'return) -> {
    return window.title
}

fn title(mut window, val) {
    window.title = clone(val)
}

fn main() {
    window := new_window()
    println(title(window))
    title(mut window, "hello world!")
    println(title(window))
}
"####),
(r"source/syntax/sum.dyon", true, r####"fn main() {
    list := [3, 4, 5, 12, 42]
    n := len(list)

    println("sum: " + str(∑ i n { list[i] }))
    println("avg: " + str(∑ i n { list[i] } / n))
    println("odd: " + str(∑ i n { list[i] % 2 }))
    println("sum >10: " + str(∑ i n {
        if list[i] > 10 { list[i] } else { continue }
    }))
    println("stop at 5: " + str(∑ i n {
        if list[i] == 5 { break }
        list[i]
    }))
    println("sim prod: " + str(exp(∑ i n { ln(list[i]) })))
    println("sim any >30: " + str(0 != ∑ i n {
        if list[i] > 30 { 1 } else { continue }
    }))
    println("sim all <50: " + str(n == ∑ i n {
        if list[i] < 50 { 1 } else { continue }
    }))
}
"####),
(r"source/syntax/link_for.dyon", true, r####"fn main() {
    println(gen_struct("Foo", [
        {name: "bar", type: "f64"},
        {name: "baz", type: "str"},
    ]))
}

gen_struct(name, fields: [{}]) = link {
    "pub struct "name" {\n"link i {
    "    pub "fields[i].name": "fields[i].type",\n"
    }"}\n\n"
}
"####),
(r"source/syntax/min_max.dyon", true, r####"fn main() {
    n := 100
    min := unwrap(min i n { f(i, n) })
    max := unwrap(max i n { f(i, n) })
    println("min: " + str(min))
    println("max: " + str(max))
}

fn f(i, n) -> {
    x := (i - n / 2) / n
    x -= 0.8
    return x^2
}
"####),
(r"source/syntax/vec4.dyon", true, r####"fn main() {
    a := (0, 0, 1)
    b := (1, 0, 0)
    c := a ⨯ b
    d := a · b
    println(c)
    println(d)

    c := a x b
    d := a *. b
    println(c)
    println(d)
}
"####),
(r"source/syntax/vec4_2.dyon", true, r####"fn main() {
    println((1, 0, 0, 1,))
}
"####),
(r"source/syntax/vec4_un_loop.dyon", true, r####"fn main() {
    println(vec4 _ 2)
    println(vec4 _ 2 + 2)
    println(vec4 i i)
    println(vec4 i i * 2)
    println(vec4 i {
        i := 3
        2 + i
    })
    println(vec4 i {
        a := {x: i * 2}
        clone(a.x)
    })
    println(vec4 i {
        a := [i]
        clone(a[0])
    })
    println(vec4 i {
        a := [i; 4]
        clone(a[i])
    })
    println(vec4 i {
        a := (i, 0)
        x(a)
    })
    println(vec4 i {
        s := 0
        for i := 0; i < 1; i += 1 {
            s += i + 5
        }
        clone(s)
    })
    println(vec4 i {
        s := 0
        for i 1 {
            s += i + 5
        }
        clone(s)
    })
    println(vec4 i {
        if i < 2 { 0 } else { 1 }
    })
    println(vec4 i -i)
    println(unwrap(try_vec4()))
    a := (4, 3, 1, 2)
    println(vec4 i s(a, i))
}

fn try_vec4() -> res {
    return ok(vec4 i some(i)?)
}
"####),
(r"source/syntax/vec4_un_loop_2.dyon", true, r####"fn main() {
    a := vec2 i i + 1
    println(a)
    a := vec3 i i + 1
    println(a)
    a := vec4 i i + 1
    println(a)
}
"####),
(r"source/syntax/swizzle.dyon", true, r####"fn main() {
    b := (10,)
    println(b)
    a := (1, 2, 3, 4)
    c := (xy a, xx b)
    println(c)

    println(foo(xy a))
    println(bar(x_y_z: zxy a))
    println(bar(x_y: zx a, z: y(a)))
}

fn foo(x: f64, y: f64) -> f64 {
    return x + y
}

fn bar__x_y_z(x: f64, y: f64, z: f64) -> f64 {
    return x + y + z
}
"####),
(r"source/syntax/color.dyon", true, r####"fn main() {
    color := #e7be8d
    println(str(color: color))
}
"####),
(r"source/syntax/parens.dyon", true, r####"fn main() {
    x := {
        y := 0
        (0, 0)
    }
    println(x)
}
"####),
(r"source/syntax/infer_pass.dyon", true, r####"
fn main() {
    x := [1, 2, 3]
    println(sum i { x[i] })
    println(sum i { x[i]^2 })
    println(sum i {
        y := x[i]
        y + 5
    })
    println(sum i {
        y := {a: x[i]}
        y.a + 5
    })
    println(sum i {
        y := [x[i]]
        y[0] + 5
    })
    println(sum i {
        y := [x[i]; 1]
        y[0] + 5
    })
    println(sum i {
        y := [1; x[i]]
        y[0] + 5
    })
    println(foo(x))
    println(sum i {
        {
            y := x[i]
            y + 5
        }
    })
    println(sum i {
        if true {
            x[i]
        }
        5
    })
    println(sum i {
        y := 5 < x[i]
        if y { 3 } else { 2 }
    })
}

fn foo(x: 'return) -> {
    println(sum i {
        return x[i]
    })
}
"####),
(r"source/syntax/infer_pass_2.dyon", true, r####"fn main() {
    x := [[1, 2], [3, 4], [5, 6]]
    for i {
        for j 1 {
            println("i j " + str(i) + " " + str(i))
            // `i` is not declared, so that's fine.
            k := 0
            x[i][k] = clone(k)
        }
    }
}
"####),
(r"source/syntax/infer_pass_3.dyon", true, r####"fn main() {
    x := [[[2; 3]; 3]; 3]
    println(sum(x))
    println(sum2(x))
    println(any(x))
    println(any2(x))
    println(all(x))
    println(all2(x))
    println(min(x))
    println(min2(x))
    println(max(x))
    println(max2(x))
    println(sift(x))
    println(sift2(x))
}

fn sum(x: [[[f64]]]) -> f64 {
    return sum i { sum j { sum k {
        x[i][j][k]
    }}}
}


fn sum2(x: [[[f64]]]) -> f64 {
    return sum i, j, k { x[i][j][k] }
}

fn any(x: [[[f64]]]) -> bool {
    return any i { any j { any k {
        x[i][j][k] == 0
    }}}
}

fn any2(x: [[[f64]]]) -> bool {
    return any i, j, k { x[i][j][k] == 0 }
}

fn all(x: [[[f64]]]) -> bool {
    return all i { all j { all k {
        x[i][j][k] == 0
    }}}
}

fn all2(x: [[[f64]]]) -> bool {
    return all i, j, k { x[i][j][k] == 0 }
}

fn sift(x: 'return [[[f64]]]) -> [[[f64]]] {
    return sift i { sift j { sift k {
        x[i][j][k] + random() * 0.001
    }}}
}

fn sift2(x: 'return [[[f64]]]) -> [[[f64]]] {
    return sift i, j, k { x[i][j][k] + random() * 0.001 }
}

fn min(x: [[[f64]]]) -> f64 {
    return min i { min j { min k {
        x[i][j][k]
    }}}
}

fn min2(x: [[[f64]]]) -> f64 {
    return min i, j, k { x[i][j][k] }
}

fn max(x: [[[f64]]]) -> f64 {
    return max i { max j { max k {
        x[i][j][k]
    }}}
}

fn max2(x: [[[f64]]]) -> f64 {
    return max i, j, k { x[i][j][k] }
}
"####),
(r"source/syntax/infer_pass_4.dyon", true, r####"fn init() -> {
    return {
        spaceship: {
            pos: (300, 300),
            vel: (10, 0),
        },
        objects_to_move: ["spaceship"]
    }
}

fn update__world_dt(mut world, dt) {
    objs := world.objects_to_move
    for i {
        world[objs[i]].pos = move(obj: world[objs[i]], dt: dt)
    }
}

fn move__obj_dt(obj, dt) -> vec4 {
    return obj.pos + dt * obj.vel
}

fn main() {
    world := init()
    println(world)
    dt := 0.1
    update(world: mut world, dt: dt)
    println(world)
}
"####),
(r"source/syntax/infer_pass_5.dyon", true, r####"multiply__matrix_matrix(a: [vec4], b: [vec4]) = sift i {(
        a[i] *. (x(b[0]), x(b[1]), x(b[2]), x(b[3])),
        a[i] *. (y(b[0]), y(b[1]), y(b[2]), y(b[3])),
        a[i] *. (z(b[0]), z(b[1]), z(b[2]), z(b[3])),
        a[i] *. (w(b[0]), w(b[1]), w(b[2]), w(b[3]))
)}

translate(v: vec4) = [
    (1, 0, 0, x(v)),
    (0, 1, 0, y(v)),
    (0, 0, 1, z(v)),
    (0, 0, 0, 1)
]

fn print__matrix(matrix: [vec4]) {
    for i {
        print(x(matrix[i]))
        print(",")
        print(y(matrix[i]))
        print(",")
        print(z(matrix[i]))
        print(",")
        print(w(matrix[i]))
        println("")
    }
    println("")
}

fn main() {
    mat := multiply(matrix: translate((2, 3)), matrix: translate((1, 4)))
    print(matrix: mat)
}
"####),
(r"source/syntax/infer_pass_6.dyon", true, r####"fn main() {
    list := [1, 2, 3]
    j := 0
    hit := 0
    println(any i {
        hit = clone(i)
        list[i] == 2
    })
}
"####),
(r"source/syntax/infer_pass_7.dyon", true, r####"fn main() {
    pos := [0, 1, 2]
    vs := [1, 2, 3]
    for i {
        pos := vs[pos[i]]
    }
}
"####),
(r"source/syntax/infer_pass_8.dyon", true, r####"fn main() {
    a := [0, 1, 2]
    b := [0, 1, 2]
    c := sift i {b[a[i] + 0]}
    println(b)
}
"####),
(r"source/syntax/infer_fail_1.dyon", false, r####"fn main() {
    x := [1, 2, 3]
    for i {
        for i {
            x[i] = 0
        }
    }
}
"####),
(r"source/syntax/infer_fail_2.dyon", false, r####"fn main() {
    x := [1, 2, 3]
    for i {
        i := 2
        x[i] = 0
    }
}
"####),
(r"source/syntax/infer_fail_3.dyon", false, r####"fn main() {
    x := [[1, 2], [3, 4]]
    for i {
        for j {
            // Fails because len(x[j]) is not valid.
            x[j][i] = 0
        }
    }
}
"####),
(r"source/syntax/infer_fail_4.dyon", false, r####"fn main() {
    x := [[1, 2], [3, 4], [5, 6]]
    for i {
        for j 1 {
            println("i j " + str(i) + " " + str(i))
            // `k` is before `i`, so it should fail.
            k := 0
            x[k][i] = clone(k)
        }
    }
}
"####),
(r"source/syntax/infer_fail_5.dyon", false, r####"fn main() {
    list := [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
    x := ∑vec4 i {
        (i, i, i, i)
    }
    println(x)
}
"####),
(r"source/syntax/infer_fail_6.dyon", false, r####"fn main() {
    list := [1, 2]
    for i {
        list[[i]] := 3
    }
    println(list)
}
"####),
(r"source/syntax/space_before_function.dyon", true, r####" foo() = 3
  bar() = 4

fn main() {
   println(foo())
}
"####),
(r"source/syntax/current.dyon", true, r####"fn foo() ~ bar {
    println(bar)
    {
        ~ bar := "bye!"
        baz()
    }
    println(bar)
}

fn baz() ~ bar {
    println(bar)
}

fn main() {
    ~ bar := "hi!"
    foo()
}
"####),
(r"source/syntax/mut.dyon", false, r####"
fn main() {
    a := 3
    foo(a)
    println(a)
}

fn foo(a) {
    a %= 2
}
"####),
(r"source/syntax/closure.dyon", true, r####"fn main() {
    a := foo()
    x := any i [1, 3), j [1, 3) { \a(i, j) }
    if x {
        println(why(x))
    }
}

fn foo() -> {
    return \(x, y) = x < y
}
"####),
(r"source/syntax/closure_2.dyon", true, r####"fn main() {
    a__x_y := foo()
    x := any i [1, 3), j [1, 3) { \a(x: i, y: j) }
    if x {
        println(why(x))
    }
}

fn foo() -> {
    return \(x, y) = x < y
}
"####),
(r"source/syntax/closure_3.dyon", true, r####"fn main() {
    a := {foo__x_y: foo()}
    x := any i [1, 3), j [1, 3) { \a.foo(x: i, y: j) }
    if x {
        println(why(x))
    }
}

fn foo() -> {
    return \(x, y) = x < y
}
"####),
(r"source/syntax/closure_4.dyon", false, r####"fn main() {
    a := 0
    b := \() = \() = grab a
}
"####),
(r"source/syntax/closure_5.dyon", true, r####"fn split(binop: \(any, any) -> any) -> \(any) -> \(any) -> any {
    return \(x) = {
        binop := grab binop
        \(y) = {
            x := grab x
            binop := grab binop
            \binop(x, y)
        }
    }
}

fn join(binop: \(any) -> \(any) -> any) -> \(any, any) -> any {
    return \(x, y) = {
        binop := grab binop
        a := \binop(x)
        \a(y)
    }
}

fn concat(a: \(any) -> \(any) -> any, b: \(any) -> \(any) -> any)
-> \(any) -> \(any) -> \(any) -> any {
    return \(x) = {
        a := grab a
        b := grab b
        \(y) = {
            a := grab \a(x)
            b := grab b
            \(z) = {
                a := grab \a(y)
                b := grab b
                r := \b(a)
                \r(z)
            }
        }
    }
}

fn main() {
    a := \(x, y) = x < y
    b := split(a)
    c := \b(2)
    d := \c(3)
    println(d)

    a := \(x, y) = x + y
    b := split(a)
    c := join(b)
    println(\c(1, 2))

    a := \(x, y) = x + y
    b := split(a)
    c := concat(b, b)
    d := \c(1)
    e := \d(2)
    f := \e(3)
    println(f)
}
"####),
(r"source/syntax/closure_6.dyon", true, r####"fn main() {
    a := delta(\(x, y) = x == y)
    b := delta(\(x, y) = x < y)
    c := delta(\(x, y) = x > y)
    println(\a(2, 2)) // prints `1`
    println(\a(3, 2)) // prints `0`
    println(\b(2, 2)) // prints `0`
    println(\b(1, 2)) // prints `1`
    println(\c(2, 2)) // prints `0`
    println(\c(3, 2)) // prints `1`
}

fn delta(cond: \(f64, f64) -> bool) -> \(f64, f64) -> f64 {
    return \(x, y) = {
        cond := grab cond
        if \cond(x, y) { 1 } else { 0 }
    }
}
"####),
(r"source/syntax/or.dyon", true, r####"fn main() {
    println(white())
    println(orange())
}

// Check that `or` is not confused with `orange`.
white() = #ffffff
orange() = #ffaa00
"####),
(r"source/syntax/try_expr.dyon", true, r####"foo() = {
    arr := []
    clone(arr[0])
}

fn main() {
    a := try foo()
    if is_err(a) {
        println(unwrap_err(a))
    }
}
"####),
(r"source/syntax/start_true.dyon", true, r####"fn main() {
    a := 3
    true_a := 4
    println(a + true_a)
}
"####),
(r"source/syntax/push_ref.dyon", false, r####"fn main() {
    a := []
    b := foo(a)
    c := 1
    push_ref(mut b, c)
}

foo(x: 'return) = x
"####),
(r"source/syntax/for_in.dyon", true, r####"fn log(a: f64) {}

fn finish() {}

fn bar(id: f64, n: f64) -> bool {
    for i n {
        log((id + 1) * 1000 + i)
        sleep(0.1)
    }
    finish()
    return true
}

fn main() {
    log := in log
    finish := in finish
    n := 10
    for i n {_ := go bar(i, 2)}
    loop {
        for msg in log {println(msg[0])}
        if n == 0 {break}
        for done in finish {n -= 1}
    }
}
"####),
(r"source/syntax/return_arr.dyon", true, r####"fn main() {
    println(foo())
}

fn foo() -> [f64] {
    return = [0; 3]
    return[0] = 1
    return[1] = 2
    return[2] = 3
}
"####),
(r"source/syntax/return_cmp.dyon", true, r####"fn main() {
    println(foo())
}

fn foo() -> [f64] {
    return = [0; 3]
    if return[0] < 0 {
        return[0] = 1
        return[1] = 2
        return[2] = 3
    }
}
"####),
(r"source/syntax/try_pass_1.dyon", true, r####"fn main() {
    a := [ok(1)]
    println(foo(a))
}

fn foo(a: 'return [res[f64]]) -> f64 {
    return a[0]?
}
"####),
(r"source/syntax/try_pass_2.dyon", true, r####"fn main() {
    a := ok(1)
    println(foo(a))
}

fn foo(a: 'return res[f64]) -> f64 {
    return a?
}
"####),
(r"source/syntax/try_fail_1.dyon", false, r####"fn main() {
    a := [ok(1)]
    println(foo(a))
}

fn foo(a: 'return [res[f64]]) -> f64 {
    return a[0]
        ?
}
"####),
(r"source/syntax/try_fail_2.dyon", false, r####"fn main() {
    a := ok(1)
    println(foo(a))
}

fn foo(a: 'return res[f64]) -> f64 {
    return a
        ?
}
"####),
(r"source/syntax/div_pass_1.dyon", true, r####"fn main() {
    a := 4
    println(foo(a))
}

fn foo(a: f64) -> f64 {
    return a/2
}
"####),
(r"source/syntax/div_fail_1.dyon", false, r####"fn main() {
    a := 4
    println(foo(a))
}

fn foo(a: f64) -> f64 {
    return a
        /2
}
"####),
(r"source/syntax/continue_call.dyon", true, r####"fn main() {
    loop {
        continue_loop()
        break
    }
}

fn continue_loop() {}
"####),
(r"source/syntax/mat4_1.dyon", true, r####"fn main() {
    println(mat4 {1,;})
}
"####),
(r"source/syntax/secret_fail.dyon", false, r####"// Must use `sec[bool]` or `sec[f64]`.
fn check(_: sec) {}

fn main() {
    check(explain_where(2, ""))
}
"####),
(r"source/syntax/lazy_pass_1.dyon", true, r####"fn foo(a: bool => false, b: bool) -> bool {return a && b}

fn main() {
    println(foo(false, {
        println("this is a test")
        false
    }))
}
"####),
(r"source/syntax/lazy_pass_2.dyon", true, r####"fn foo(a: f64 => 0, b: f64) -> f64 {return a * b}

fn main() {
    println(foo(0, {
        println("this is a test")
        2
    }))
}
"####),
(r"source/syntax/lazy_pass_3.dyon", true, r####"fn foo(a: [f64] => [], b: [f64]) -> [f64] {return clone(a)}

fn main() {
    println(foo([], {
        println("this is a test")
        [1, 2]
    }))
}
"####),
(r"source/syntax/lazy_pass_4.dyon", true, r####"fn foo(a: str => "hi", b: str) -> str {return clone(a)}

fn main() {
    println(foo("hi", {
        println("this is a test")
        "hello"
    }))
}
"####),
(r"source/syntax/lazy_pass_5.dyon", true, r####"fn foo(a: res[str] => ok(_), b: str) -> str {return unwrap_or(a, b)}

fn main() {
    println(foo(ok("hi"), {
        println("this is a test")
        "hello"
    }))
}
"####),
(r"source/syntax/lazy_pass_6.dyon", true, r####"fn foo(a: res[str] => ok(_), b: str) -> str {return unwrap_or(a, b)}

fn main() {
    a := ok("hi")
    println(foo(a, {
        println("this is a test")
        "hello"
    }))
}
"####),
(r"source/syntax/lazy_pass_7.dyon", true, r####"fn foo(a: res[str] => err(_), b: str) -> any {
    return if is_err(a) {unwrap_err(a)}
           else {clone(b)}
}

fn main() {
    a := err("hi")
    println(foo(a, {
        println("this is a test")
        "hello"
    }))
}
"####),
(r"source/syntax/lazy_pass_8.dyon", true, r####"fn foo(a: any => ok(_) | some(_), b: str) -> str {
    return unwrap_or(a, b)
}

fn main() {
    a := ok("hi")
    println(foo(a, {
        println("this is a test")
        "hello"
    }))
}
"####),
(r"source/syntax/returns.dyon", true, r####"fn main() {
    returns := 2
    println({a: returns})
}
"####),
(r"source/typechk/opt.dyon", false, r####"fn foo() -> opt[bool] {
    return some(true)
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return.dyon", false, r####"fn foo() -> f64 {
    return true
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/return_2.dyon", false, r####"
fn foo() -> bool {
    x := {
        return 5
    }
    return true
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/return_3.dyon", false, r####"fn foo() -> f64 {
    return "hi"
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/return_4.dyon", false, r####"fn foo() -> bool {
    return
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return_5.dyon", false, r####"fn foo() -> bool {
    return [0]
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return_6.dyon", false, r####"fn foo() -> bool {
    return [0; 2]
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return_7.dyon", false, r####"fn foo() -> bool {
    return (0, 1)
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return_8.dyon", false, r####"fn foo() -> bool {
    return {}
}

fn main() {
    if foo() {
        println("oh?")
    }
}
"####),
(r"source/typechk/return_9.dyon", true, r####"foo() = {
    return 2
}

fn main() {
    bar(foo() * 3)
}

fn bar(a: f64) {
    println(a)
}
"####),
(r"source/typechk/return_10.dyon", false, r####"foo() = {
    return 2
    return false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/return_11.dyon", false, r####"foo() = {
    if false { return 2 }
    false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/return_12.dyon", false, r####"fn main() {
    println(foo())
}

fn foo() -> {
    if false {}
    else {}
}
"####),
(r"source/typechk/return_13.dyon", true, r####"fn main() {
    println(foo())
}

fn foo() -> {
    return = 3
}
"####),
(r"source/typechk/return_14.dyon", true, r####"fn main() {
    println(foo())
}

foo() = link i 3 {"hi "i"\n"}
"####),
(r"source/typechk/return_15.dyon", false, r####"fn main() {
    println(foo())
}

fn foo() -> f64 {
    return = ""
}
"####),
(r"source/typechk/return_16.dyon", false, r####"fn main() {
    a := 2
    b := 3
    foo(a, b)
}

fn foo(a: 'return, b) {}
"####),
(r"source/typechk/return_17.dyon", false, r####"fn main() {
    b := 3
    a := 2
    _ := foo(mut a, b)
}

fn foo(mut a: 'return, b) -> f64 {
    a = b
    return 3
}
"####),
(r"source/typechk/add.dyon", true, r####"fn foo() -> vec4 {
    return (1, 2) + 4
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/mat_expr.dyon", true, r####"
f(x) = x / (x + 1)

fn foo() -> f64 {
    return f(2)
}

fn main() {
    println(f(2))
}
"####),
(r"source/typechk/or.dyon", true, r####"
fn foo() -> bool {
    return true or false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/or_2.dyon", false, r####"
fn foo() -> bool {
    return true or 5
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/mul.dyon", false, r####"
fn foo() -> f64 {
    return 5 * false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/pow.dyon", false, r####"
fn foo() -> f64 {
    return 2 ^ false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/pow_2.dyon", true, r####"
fn foo() -> bool {
    return false ^ false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/pow_3.dyon", false, r####"
fn foo() -> bool {
    return "hi" ^ false
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/call.dyon", false, r####"fn foo(x: 'return f64) -> f64 {
    return x
}

fn main() {
    y := false
    println(foo(y))
}
"####),
(r"source/typechk/call_2.dyon", false, r####"fn main() {
    x := {}
    push(mut x, 3)
    println(x)
}
"####),
(r"source/typechk/call_4.dyon", true, r####"fn main() {
    a := (10, 2)
    c := false
    foo(xy a, c)
}

fn foo(a: f64, b: f64, c: bool) {
    println(b)
}
"####),
(r"source/typechk/obj_pass_1.dyon", true, r####"fn foo() -> {
    x := {a: 0}
    y := {b: 1}
    return x.a + y.b
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/arr_pass_1.dyon", true, r####"fn main() {
    a := [4]
    println(foo(a))
}

fn foo(a: 'return [f64]) -> f64 {
    return a[0]
}
"####),
(r"source/typechk/arr_pass_2.dyon", true, r####"fn main() {
    x := 0
    y := 1
    a := []
    foo(mut a, x, y)
}

fn foo(mut a, x: 'a, y: 'a) {
    a = [x, y]
}
"####),
(r"source/typechk/arr_pass_3.dyon", true, r####"fn main() {
}

fn foo(mut a, b, c) {
    push(mut a, [b, c])
}
"####),
(r"source/typechk/arr_fail_1.dyon", false, r####"fn main() {
    a := [4]
    println(foo(a))
}

fn foo(a: 'return [f64]) -> f64 {
    return a
    [0]
}
"####),
(r"source/typechk/arr_fail_2.dyon", false, r####"fn main() {
    println([0; false])
}
"####),
(r"source/typechk/arr_fail_3.dyon", false, r####"fn main() {
    x := 0
    a := []
    y := 1
    foo(mut a, x, y)
}

fn foo(mut a, x: 'a, y) {
    a = [x, y]
}
"####),
(r"source/typechk/arr_fail_4.dyon", false, r####"fn main() {
}

fn foo(mut a, b, c) {
    push_ref(mut a, [b, c])
}
"####),
(r"source/typechk/go.dyon", false, r####"fn bar() {}

fn main() {
    data_thread := go bar()
    for i 10 {
        sleep(0.1)
    }
    println("Done here")
    data := unwrap(join(thread: data_thread))
    println(data)
}
"####),
(r"source/typechk/unused_result.dyon", false, r####"fn foo() -> f64 {
    3 + 4
    return 7
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/unused_result_2.dyon", false, r####"fn foo() {
    3 + 4
}

fn main() {
    foo()
}
"####),
(r"source/typechk/res.dyon", true, r####"
fn bar(x: f64) -> opt {
    return some(clone(x))
}

fn foo() -> res {
    return ok(bar(ok(3)?)?)
}

fn main() {
    println(foo())
}
"####),
(r"source/typechk/vec4.dyon", false, r####"fn main() {
    a := (10, 2, 7, 3)
    c := false
    d := (xy a, c)
    println(d)
}
"####),
(r"source/typechk/if.dyon", true, r####"δ(x) = if x == 0 { 1 } else { 0 }

fn main() {
    a := sift i 4 { vec4 j δ(i-j) }
    println(a)
}
"####),
(r"source/typechk/if_2.dyon", false, r####"δ(x) = if x == 0 { 1 } else { false }

fn main() {
    println(δ(0))
}
"####),
(r"source/typechk/if_3.dyon", false, r####"δ(x) = if x == 0 { 1 } else if 1 { 0 } else { 0 }

fn main() {
    println(δ(0))
}
"####),
(r"source/typechk/if_4.dyon", false, r####"δ(x) = if x == 0 { 1 } else if true { false } else { 0 }

fn main() {
    println(δ(0))
}
"####),
(r"source/typechk/if_5.dyon", false, r####"fn main() {
    if false {}
    else {
        foo()
    }
}

fn foo() -> { 5 }
"####),
(r"source/typechk/if_6.dyon", false, r####"fn main() {
    if false {
        for i 3 {}
    }
    else {
        foo()
    }
}

fn foo() -> { 5 }
"####),
(r"source/typechk/ad_hoc.dyon", true, r####"fn main() {
    john := new_person(name: "John")
    peter := new_person(name: "Peter")
    call(john)
    call(peter)

    println("=== people")
    call_many([john, peter])

    println("=== anonymous")
    call({name: "Carl"})
}

fn new_person__name(name: str) -> Person {} {
    return { name: clone(name) }
}

fn call(person: Person {}) {
    println("Hi " + person.name + "!")
}

fn call_many(people: [Person {}]) {
    for i {
        call(people[i])
    }
}
"####),
(r"source/typechk/add_ad_hoc.dyon", false, r####"fn main() {
    a := km(0)
    bar(a + 5)
}

fn km(n: f64) -> km f64 {
    return clone(n)
}

fn bar(a: km f64) {
    println(a)
}
"####),
(r"source/typechk/add_ad_hoc_2.dyon", true, r####"fn main() {
    a := km(0)
    bar(a + km(5))
}

fn km(n: f64) -> km f64 {
    return clone(n)
}

fn bar(a: km f64) {
    println(a)
}
"####),
(r"source/typechk/add_ad_hoc_3.dyon", false, r####"fn main() {
    a := km(3)
    a += 3
    println(a)
}

fn km(v: f64) -> km f64 { return clone(v) }
"####),
(r"source/typechk/add_ad_hoc_4.dyon", false, r####"fn main() {
    foo({name: "John"})
}

fn foo(x: Person) {
    x.name += " (friend)"
    if bar(x) {
        println(x)
    }
}

fn bar(x: P) -> bool {
    return true
}
"####),
(r"source/typechk/mul_ad_hoc.dyon", false, r####"fn main() {
    a := km(3)
    bar(km: mul(km: a, km: km(5)))
}

fn km(n: f64) -> km[f64] {
    return clone(n)
}

fn bar_km(a: km[f64]) {
    print(a)
    println(" km")
}

fn __km(v: km[f64]) -> f64 { return clone(v) }

fn mul_km_km(a: km[f64], b: km[f64]) -> km2[f64] {
    return __km(a) * __km(b)
}
"####),
(r"source/typechk/unop.dyon", true, r####"fn main() {
    println(f(2))
}

f(x: f64) = -x
"####),
(r"source/typechk/prod.dyon", false, r####"fn main() {
    list := [1, 2, 3, 4]
    foo(prod i { list[i] })
}

fn foo(a: bool) {}
"####),
(r"source/typechk/closure.dyon", true, r####"fn main() {
    a := foo()
    bar(a)
}

fn foo() -> \(f64) -> f64 {
    return \(x) = x + 1
}

fn bar(a: \(f64) -> f64) {}
"####),
(r"source/typechk/closure_2.dyon", false, r####"fn main() {
    a := foo()
    bar(a)
}

fn foo() -> \(f64) -> f64 {
    return \(x) = x + 1
}

fn bar(a: bool) {}
"####),
(r"source/typechk/closure_3.dyon", false, r####"fn main() {
    foo(\(x: f64) = x + 1)
}

fn foo(a: \(f64) -> bool) {}
"####),
(r"source/typechk/closure_4.dyon", true, r####"fn main() {
    a := {foo__x_y: foo(0)}
    x := any i [1, 3), j [1, 3) { \a.foo(x: i, y: j) }
    if x {
        println(why(x))
    }
}

foo(cmp: f64) =
    if cmp < 0 {
        \(x: f64, y: f64) = x < y
    } else if cmp > 0 {
        \(x: f64, y: f64) = x > y
    } else {
        \(x: f64, y: f64) = x == y
    }
"####),
(r"source/typechk/closure_5.dyon", false, r####"fn main() {
    a := {foo__x_y: foo(0)}
    x := any i [1, 3), j [1, 3) { \a.foo(x: i, y: j) }
    if x {
        println(why(x))
    }
}

foo(cmp: f64) =
    if cmp < 0 {
        \(x: f64, y: f64) = x + y
    } else if cmp > 0 {
        \(x: f64, y: f64) = x > y
    } else {
        \(x: f64, y: f64) = x == y
    }
"####),
(r"source/typechk/closure_6.dyon", true, r####"fn main() {
    f := \(x) = x + 1

    a := fmap(f, twice())
    println(\a(0))
}

twice() = \(f: \(any) -> any, v) = \f(\f(v))

fn fmap(f: \(any) -> any, g: \(\(any) -> any, any) -> any) -> \(any) -> any {
    return \(x) = {
        f := grab f
        g := grab g
        \g(f, x)
    }
}
"####),
(r"source/typechk/closure_7.dyon", false, r####"fn main() {
    f := \(x) = x + 1

    a := fmap(f, twice())
    println(\a(0))
}

twice() = \(f: bool, v) = \f(\f(v))

fn fmap(f: \(any) -> any, g: \(\(any) -> any, any) -> any) -> \(any) -> any {
    return \(x) = {
        f := grab f
        g := grab g
        \g(f, x)
    }
}
"####),
(r"source/typechk/closure_8.dyon", true, r####"fn main() {
    f := \(x) = x + 1

    a := fmap(f, twice())
    println(\a(0))
}

twice() = \(f: any, v) = \f(\f(v))

fn fmap(f: \(any) -> any, g: \(\(any) -> any, any) -> any) -> \(any) -> any {
    return \(x) = {
        f := grab f
        g := grab g
        \g(f, x)
    }
}
"####),
(r"source/typechk/closure_9.dyon", true, r####"fn main() {
    f := \(x) = return clone(x)
    println(f)
}
"####),
(r"source/typechk/local.dyon", true, r####"fn main() {
    a := 5
    a := false
    foo(a)
}

fn foo(a: bool) {}
"####),
(r"source/typechk/grab.dyon", false, r####"fn main() {
    a := sift i 3 { \() = grab println("hi!") }
    for i {
        println(\a[i]())
    }
}
"####),
(r"source/typechk/grab_2.dyon", false, r####"fn main() {
    x := 2
    a := \(x: bool) = {
        grab x
    }
    println(\a(0) + 2)
}
"####),
(r"source/typechk/grab_3.dyon", true, r####"fn main() {
    x := 2
    a := \(y) = \(z) = grab '2 x
    println(a)
}
"####),
(r"source/typechk/grab_4.dyon", true, r####"fn main() {
    // Prints `\(a: vec4) = (s(a, 1), s(a, 2), s(a, 0), s(a, 3))`.
    println(\(a: vec4) = vec4 i s(a, grab if i == 3 { i } else { (i+1)%3 }))
}
"####),
(r"source/typechk/secret.dyon", true, r####"fn main() {
    a := explain_why(true, "hi")
    foo(a)
}

fn foo(a: sec[bool]) {
    println(a)
}
"####),
(r"source/typechk/secret_2.dyon", false, r####"fn main() {
    a := true
    foo(a)
}

fn foo(a: sec[bool]) {
    println(a)
}
"####),
(r"source/typechk/secret_3.dyon", false, r####"fn main() {
    a := true
    b := why(a)
    println(b)
}
"####),
(r"source/typechk/secret_4.dyon", true, r####"fn main() {
    a := explain_why(true, "hi")
    if a {
        println(why(a))
    }
}
"####),
(r"source/typechk/secret_5.dyon", true, r####"fn main() {
    a := foo()
    if a && true {
        println(why(a))
    }
    if true && a {
        println(why(a))
    }
}

foo() = any i 3 { i == 2 }
"####),
(r"source/typechk/secret_6.dyon", true, r####"fn main() {
    a := foo()
    if a || true {
        println(why(a))
    }
    if true || a {
        println(why(a))
    }
}

foo() = any i 3 { i == 2 }
"####),
(r"source/typechk/secret_7.dyon", true, r####"fn main() {
    a := foo()
    if a ^ true {
        println(why(a))
    }
    if true ^ a {
        println(why(a))
    }
}

foo() = any i 3 { i == 2 }
"####),
(r"source/typechk/secret_8.dyon", true, r####"fn main() {
    a := foo()
    if a > 0 {
        println(where(a))
    }
    if (a ^ 1) > 0 {
        println(where(a))
    }
}

foo() = min i 3 { i+1 }
"####),
(r"source/typechk/secret_9.dyon", true, r####"fn main() {
    a := foo()
    if a > 0 {
        println(why(a > 0))
    }
}

foo() = min i 3 { i+1 }
"####),
(r"source/typechk/secret_10.dyon", false, r####"fn main() {
    a := 2
    if a > 0 {
        println(why(a > 0))
    }
}
"####),
(r"source/typechk/secret_11.dyon", true, r####"fn main() {
    list := [1, 2, 3]
    check := all i {list[i] < 2}
    if !check {
        why := why(!check)
    }
}
"####),
(r"source/typechk/dot.dyon", true, r####"fn main() {
    println(foo())
}

fn foo() -> f64 {
    return (0, 1) *. (0, 1)
}
"####),
(r"source/typechk/in.dyon", true, r####"fn main() {
    a := in goto
    _ := goto(20, 20)
    foo(a)
}

goto(x: f64, y: f64) = true

fn foo(a: in) {
    println(next(a))
}
"####),
(r"source/typechk/in_2.dyon", false, r####"
fn main() {
    a := in goto
    _ := goto(20, 20)
    foo(a)
}

goto(x: f64, y: f64) = true

fn foo(a: f64) {
    println(next(a))
}
"####),
(r"source/typechk/vec4_2.dyon", false, r####"fn main() {
    a := "hi"
    b := (xy a,)
    println(b)
}
"####),
(r"source/typechk/mat4_1.dyon", false, r####"fn main() {
    a := mat4 {
        1, 0, 0, 0;
        2, 0, 0, 0;
        3, 0, 0, 0;
        4, 0, 0, 0;
    }
    b := mat4 {wzyx a;} // Do not allow vector swizzling.
    println(b)
}
"####),
(r"source/typechk/mat4_2.dyon", true, r####"// Scalar vs Matrix4 operations.

fn main() {
    a := mat4 {1,2,3,4;2,3,4,1;3,4,1,2;4,1,2,3}
    println(2 * a)
    println(a * 2)
    println(2 + a)
    println(a + 2)
    println(2 - a)
    println(a - 2)
}
"####),
(r"source/typechk/ind_arr.dyon", true, r####"fn main() {
    a := [1, 2]
    list := [a]
    x := where(min i, j {list[i][j]})
    println(x)
    println(list[x])
    list[x] = 4
    println(list)
}
"####),
(r"source/typechk/norm.dyon", false, r####"norm(x: f64) = sin(x)

fn main() {
    println(|(2, 3)|)
}
"####),
(r"source/typechk/refinement.dyon", false, r####"// Use `any` implicitly.
fn foo(x) -> {return x + 1}
// Add simple refinement types to catch more errors.
(f64) -> f64
(vec4) -> vec4

bar(x: f64) = x + 1

fn main() {
    x := bar(foo((1, 2)))
    println(x)
}
"####),
(r"source/typechk/refinement_2.dyon", false, r####"// Use `any` implicitly.
fn foo(x) -> {return x + 1}
// Add simple refinement types to catch more errors.
(f64) -> f64
(any) -> vec4

bar(x: f64) = x + 1

fn main() {
    x := bar(foo((1, 2)))
    println(x)
}
"####),
(r"source/typechk/refinement_3.dyon", false, r####"fn add(a, b) -> {return a + b}
(vec4, vec4) -> vec4

fn check_f64(_: f64) {}

fn main() {
    b := add((1, 2), (3, 4))
    check_f64(b)
}
"####),
(r"source/typechk/refinement_4.dyon", false, r####"// Turn a name string into a hero object.
fn hero(name: str) -> {} {return clone({name: name})}
// Simple refinement types are specified after function declaration.
// This provides the type checker with extra type information.
//
// Refine `Super str` to `SuperHero {}` object.
(Super str) -> SuperHero {}
// Refine `Duper str` to `DuperHero {}` object.
(Duper str) -> DuperHero {}

// Create ad-hoc type `Super str`.
fn new_super(name: str) -> Super str {return clone(name)}
// Create ad-hoc type `Duper str`.
fn new_duper(name: str) -> Duper str {return clone(name)}

// Check for ad-hoc type `SuperHero`.
fn check_super_hero(_: SuperHero) {}
// Check for ad-hoc type `DuperHero`.
fn check_duper_hero(_: DuperHero) {}

fn main() {
    check_duper_hero(hero(new_super("Mr. X")))
}
"####),
(r"source/typechk/refinement_5.dyon", true, r####"// Turn a name string into a hero object.
fn hero(name: str) -> {} {return clone({name: name})}
// Simple refinement types are specified after function declaration.
// This provides the type checker with extra type information.
//
// Refine `Super str` to `SuperHero {}` object.
(Super str) -> SuperHero {}
// Refine `Duper str` to `DuperHero {}` object.
(Duper str) -> DuperHero {}

// Create ad-hoc type `Super str`.
fn new_super(name: str) -> Super str {return clone(name)}
// Create ad-hoc type `Duper str`.
fn new_duper(name: str) -> Duper str {return clone(name)}

// Check for ad-hoc type `SuperHero`.
fn check_super_hero(_: SuperHero) {}
// Check for ad-hoc type `DuperHero`.
fn check_duper_hero(_: DuperHero) {}

fn main() {
    check_super_hero(hero("Mr. X"))
    check_duper_hero(hero("Mr. X"))
}
"####),
(r"source/typechk/refinement_6.dyon", true, r####"fn foo(a: bool) -> bool {return clone(a)}
(sec[bool]) -> sec[bool]

fn check_sec(a: sec[bool]) {}

fn main() {
    check_sec(foo(explain_why(true, "")))
}
"####),
(r"source/typechk/refinement_7.dyon", false, r####"fn foo(a: bool) -> bool {return clone(a)}
(sec[bool]) -> sec[bool]

fn check_sec(a: sec[bool]) {}

fn main() {
    check_sec(foo(true))
}
"####),
(r"source/typechk/refinement_8.dyon", false, r####"fn check_f64(_: f64) {}
fn foo(a) -> {return clone(a)}
([]) -> [f64]

fn main() {
    check_f64(foo([1, 2, 3]))
}
"####),
(r"source/typechk/refinement_9.dyon", true, r####"fn check_f64(_: f64) {}
fn foo(a) -> {return clone(a)}
([f64]) -> [f64]
fn bar(a: [f64]) -> [] {return clone(a)}

fn main() {
    // `bar` returns an ambiguous array type `[]`,
    // so `foo` should not refine the type,
    // which should make `check_f64` not detect a type error.
    check_f64(foo(bar([1, 2, 3])))
}
"####),
(r"source/typechk/refinement_10.dyon", false, r####"fn check_bool(_: bool) {}
fn foo(a) -> {return clone(a)}
([]) -> [bool]

fn main() {
    check_bool(foo([true, true, false]))
}
"####),
(r"source/typechk/refinement_11.dyon", true, r####"fn check_bool(_: bool) {}
fn foo(a) -> {return clone(a)}
([bool]) -> [bool]
fn bar(a: [bool]) -> [] {return clone(a)}

fn main() {
    // `bar` returns an ambiguous array type `[]`,
    // so `foo` should not refine type type,
    // which should make `check_bool` not detect a type error.
    check_bool(foo(bar([true, true, false])))
}
"####),
(r"source/typechk/refinement_12.dyon", false, r####"fn check_str(_: str) {}
fn foo(a) -> {return clone(a)}
([]) -> [str]

fn main() {
    check_str(foo(["one", "two", "three"]))
}
"####),
(r"source/typechk/refinement_13.dyon", true, r####"fn check_str(_: str) {}
fn foo(a) -> {return clone(a)}
([str]) -> [str]
fn bar(a: [str]) -> [] {return clone(a)}

fn main() {
    check_str(foo(bar(["one", "two", "three"])))
}
"####),
(r"source/typechk/refinement_14.dyon", false, r####"fn check_mat4(_: mat4) {}
fn foo(a) -> {return clone(a)}
([]) -> [mat4]

fn main() {
    check_mat4(foo([mat4 {1,;}]))
}
"####),
(r"source/typechk/refinement_15.dyon", true, r####"fn check_mat4(_: mat4) {}
fn foo(a) -> {return clone(a)}
([mat4]) -> [mat4]
fn bar(a: [mat4]) -> [] {return clone(a)}

fn main() {
    check_mat4(foo(bar([mat4 {1,;}])))
}
"####),
(r"source/typechk/refinement_16.dyon", false, r####"fn check_vec4(_: vec4) {}
fn foo(a) -> {return clone(a)}
([]) -> [vec4]

fn main() {
    check_vec4(foo([(1, 0)]))
}
"####),
(r"source/typechk/refinement_17.dyon", true, r####"fn check_vec4(_: vec4) {}
fn foo(a) -> {return clone(a)}
([vec4]) -> [vec4]
fn bar(a: [vec4]) -> [] {return clone(a)}

fn main() {
    check_vec4(foo(bar([(1, 0)])))
}
"####),
(r"source/typechk/refinement_18.dyon", false, r####"fn check_link(_: link) {}
fn foo(a) -> {return clone(a)}
([]) -> [link]

fn main() {
    check_link(foo([link {"hi"}]))
}
"####),
(r"source/typechk/refinement_19.dyon", true, r####"fn check_link(_: link) {}
fn foo(a) -> {return clone(a)}
([link]) -> [link]
fn bar(a: [link]) -> [] {return clone(a)}

fn main() {
    check_link(foo(bar([link {"hi"}])))
}
"####),
(r"source/typechk/refinement_20.dyon", false, r####"fn check(_: f64) {}
fn foo(a) -> {return clone(a)}
(opt) -> opt[f64]

fn main() {
    check(foo(some(1)))
}
"####),
(r"source/typechk/refinement_21.dyon", true, r####"fn check(_: f64) {}
fn foo(a) -> {return clone(a)}
(opt[f64]) -> opt[f64]
fn bar(a: opt[f64]) -> opt {return clone(a)}

fn main() {
    check(foo(bar(some(1))))
}
"####),
(r"source/typechk/refinement_22.dyon", false, r####"fn check(_: f64) {}
fn foo(a) -> {return clone(a)}
(res) -> res[f64]

fn main() {
    check(foo(ok(1)))
}
"####),
(r"source/typechk/refinement_23.dyon", true, r####"fn check(_: f64) {}
fn foo(a) -> {return clone(a)}
(res[f64]) -> res[f64]
fn bar(a: res[f64]) -> res {return clone(a)}

fn main() {
    check(foo(bar(ok(1))))
}
"####),
(r"source/typechk/refinement_24.dyon", false, r####"fn check(_: thr[f64]) {}

fn do_something() -> bool {return true}
fn foo() -> thr[bool] {return go do_something()}
fn bar(a) -> {return clone(a)}
(thr[bool]) -> thr[bool]

fn main() {
    check(bar(foo()))
}
"####),
(r"source/typechk/refinement_25.dyon", true, r####"fn check(_: thr[f64]) {}

fn do_something() -> bool {return true}
fn foo() -> thr[any] {return go do_something()}
fn bar(a) -> {return clone(a)}
(thr[bool]) -> thr[bool]

fn main() {
    check(bar(foo()))
}
"####),
(r"source/typechk/refinement_26.dyon", false, r####"fn check(_: in[[bool]]) {}

fn foo(a: f64) {}
fn bar(a) -> {return clone(a)}
(in[[f64]]) -> in[[f64]]
fn baz() -> in[[f64]] {return in foo}

fn main() {
    check(bar(baz()))
}
"####),
(r"source/typechk/refinement_27.dyon", true, r####"fn check(_: in[[bool]]) {}

fn foo(a: f64) {}
fn bar(a) -> {return clone(a)}
(in[[f64]]) -> in[[f64]]
fn baz() -> in {return in foo}

fn main() {
    check(bar(baz()))
}
"####),
(r"source/typechk/void_refinement.dyon", false, r####"fn foo(_) {}
(bool) -> bool

fn main() {
}
"####),
(r"source/typechk/args_refinement.dyon", false, r####"fn foo(a: bool) -> {return clone(a)}
(bool, bool) -> bool

fn main() {
}
"####),
(r"source/typechk/refine_type_fail.dyon", false, r####"fn foo(a: bool) -> {return clone(a)}
(str) -> bool

fn main() {
}
"####),
(r"source/typechk/refine_type_fail_2.dyon", false, r####"fn foo(a: bool) -> bool {return clone(a)}
(bool) -> str

fn main() {
}
"####),
(r"source/typechk/closure_ad_hoc.dyon", true, r####"fn foo() -> Foo \() -> bool {return \() = true}
fn main() {
    a := foo()
    println(\a())
}
"####),
(r"source/typechk/refine_closed_fail_1.dyon", false, r####"fn foo(a) -> {return clone(a)}
(bool) -> bool
(f64) -> f64

fn main() {
    println(foo("hi"))
}
"####),
(r"source/typechk/refine_closed_fail_2.dyon", false, r####"fn foo(a, b) -> {return clone(a)}
(bool, bool) -> bool
(f64, bool) -> f64

fn main() {
    println(foo(1, 2))
}
"####),
(r"source/typechk/refine_closed_pass_1.dyon", true, r####"fn foo(a) -> {return clone(a)}
(bool) -> bool
(any) -> f64

fn main() {
    println(foo(1))
}
"####),
(r"source/typechk/refine_quantifier_pass_1.dyon", true, r####"fn foo(a: any, b: any) -> any {return a + b}
    all T { (T f64, T f64) -> T f64 }

fn km(a: f64) -> km f64 {return clone(a)}

fn check_km(a: km f64) {}

fn main() {
    check_km(foo(km(2), km(3)))
}
"####),
(r"source/typechk/refine_quantifier_pass_2.dyon", true, r####"fn foo(a: any, b: any) -> any {return a + b}
    all T { (T f64, T f64) -> T f64 }

fn check_f64(a: f64) {}

fn main() {
    check_f64(foo(2, 3))
}
"####),
(r"source/typechk/refine_quantifier_pass_3.dyon", true, r####"fn foo(a: any, b: any) -> any {return a + b}
    all T { (T f64, T f64) -> T f64 }

fn km(a: f64) -> km f64 {return clone(a)}

fn check_km(a: km f64) {}

fn main() {
    // Allow no ad-hoc type before the first one.
    check_km(foo(2, km(3)))
}
"####),
(r"source/typechk/refine_quantifier_pass_4.dyon", true, r####"fn km(a: any) -> km any {return clone(a)}
    (vec4) -> km vec4
    (f64) -> km f64
fn m(a: any) -> m any {return clone(a)}
    (vec4) -> m vec4
    (f64) -> m f64
fn foo(a: any, b: any) -> any {return a + b}
    all T { (T vec4, T vec4) -> T vec4 }
    all T { (T vec4, T f64) -> T vec4 }

fn check_m(a: m vec4) {}

fn main() {
    check_m(foo(m((2, 0)), m(2)))
}
"####),
(r"source/typechk/refine_quantifier_pass_5.dyon", true, r####"fn m(a: any) -> m any {return clone(a)}
    (vec4) -> m vec4
    (f64) -> m f64
fn foo(a: any, b: any) -> any {return a + b}
    all T { (T vec4, T vec4) -> T vec4 }
    all T { (T vec4, f64) -> T vec4 }

fn check_m(a: m vec4) {}

fn main() {
    check_m(foo(m((2, 0)), 2))
}
"####),
(r"source/typechk/refine_quantifier_fail_1.dyon", false, r####"fn foo(a: any, b: any) -> any {return a + b}
    all T { (T f64, T f64) -> T f64 }

fn km(a: f64) -> km f64 {return clone(a)}

fn check_km(a: km f64) {}

fn main() {
    check_km(foo(km(2), 3))
}
"####),
(r"source/typechk/refine_quantifier_fail_2.dyon", false, r####"fn foo(a: any, b: any) -> any {return a + b}
    all T { (T f64, T f64) -> T f64 }

fn km(a: f64) -> km f64 {return clone(a)}
fn m(a: f64) -> m f64 {return clone(a)}

fn check_km(a: km f64) {}

fn main() {
    check_km(foo(m(2), km(3)))
}
"####),
(r"source/functions/functions.dyon", true, r####"/*
Functions are categorized into different types:

- intrinsic (part of standard Dyon environment)
- external (custom Rust functions operating on the Dyon environment)
- loaded (imported and local functions)
*/

fn print__function(f) {
    print(f.name)
    print("(")
    n := len(f.arguments)
    for i n {
        print(f.arguments[i].name)
        if f.arguments[i].lifetime != none() {
            print(": '" + unwrap(f.arguments[i].lifetime))
            if f.arguments[i].takes != "any" {
                print(" " + f.arguments[i].takes)
            }
        } else {
            if f.arguments[i].takes != "any" {
                print(": " + f.arguments[i].takes)
            }
        }
        if (i + 1) < n {
            print(", ")
        }
    }
    print(")")
    if f.returns != "void" {
        if f.returns == "any" {
            print(" ->")
        } else {
            print(" -> " + f.returns)
        }
    }
    print(" ... ")
    print(f.type)
    println("")
}
"####),
(r"source/error/propagate.dyon", true, r####"fn foo() -> {
    // x := ok(2)
    x := err("hi")
    y := x? + 3
    return ok(y)
}

fn foo2() -> {
    // x := {a: ok(2)}
    x := {a: err("hi")}
    y := x.a?
    return ok(y)
}

fn foo3() -> {
    // x := {a: {b: ok(2)}}
    x := {a: {b: err("error")}}
    y := x.a.b?
    return ok(y)
}

fn foo4() -> {
    // x := {a: ok({b: ok(8)})}
    // x := {a: ok({b: err("error 1")})}
    x := {a: err("error 2")}
    y := x.a?.b?
    return ok(y)
}

fn foo5() -> {
    // x := [{a: ok([ok(3)])}]
    x := [{a: err("error")}]
    y := x[0].a?[0]?
    return ok(y)
}

/*
fn bar() {
    x := err("hi")
    x?
}
*/

fn main() {
    x := foo5()
    println(x)
    // bar()
}
"####),
(r"source/error/call.dyon", true, r####"fn foo() -> {
    // return err("hi")
    return ok(3)
}

fn bar() -> {
    x := foo()?
    return ok(x + 2)
}

fn main() {
    x := bar()
    println(x)
}
"####),
(r"source/error/named_call.dyon", true, r####"fn foo__val(a) -> {
    // return err("hi")
    return ok(a + 3)
}

fn bar__val(a) -> {
    x := foo(val: a)?
    return ok(x + 2)
}

fn main() {
    x := bar(val: 5)
    println(x)
}
"####),
(r"source/error/if.dyon", true, r####"fn foo__val(a) -> {
    // return err("hi")
    return ok(a + 3)
}

fn bar__val(a) -> {
    x := if a == 0 { ok(1) } else { foo(val: a) }?
    return ok(x + 2)
}

fn main() {
    x := bar(val: 0)
    println(x)
}
"####),
(r"source/error/trace.dyon", true, r####"fn foo() -> {
    return err("something wrong happened")
}

fn bar() -> {
    x := foo()?
    return ok(x + 1)
}

fn baz() -> {
    x := bar()?
    return ok(x + 1)
}

fn main() {
    println(unwrap(baz()))
}
"####),
(r"source/error/unwrap_err.dyon", true, r####"fn foo() -> {
    return err("something wrong happened")
    // return ok(5)
}

fn main() {
    x := foo()
    if is_err(x) {
        println(unwrap_err(x))
    } else {
        println(unwrap(x))
    }
}
"####),
(r"source/error/option.dyon", true, r####"fn foo() -> {
    x := none()
    return ok(x?)
}

fn bar() -> {
    return none()
}

fn baz() -> {
    x := bar()?
    return ok(x)
}

fn main() {
    x := unwrap(baz())
    println(x)
}
"####),
];

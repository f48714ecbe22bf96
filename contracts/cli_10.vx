## fn cli::options::MotorId::raw
props C25
ensures [C25]
    r == self.number(),

## fn cli::options::MotorId::assume_unicast
props C25
ensures [C25]
    r == (match self { crate::cli::options::MotorId::Id(n) => Ok::<u8, ()>(n), crate::cli::options::MotorId::Broadcast => Err(()) }),

## fn cli::options::MotorId@FromStr::from_str
props C25
ensures [C25]
    match crate::vxcli::meaning(data@) { Some(m) => r == Ok::<crate::cli::options::MotorId, &'static str>(m) && m.given(), None => r is Err },

## fn cli::main
attr stub

## fn cli::do_main
props C25
requires
    // Made by clap, with the function above for motor IDs.
    options == crate::vxcli::options(),
    options.command.motor() is Some ==> options.command.motor()->0.given(),
ensures [C25]
    crate::vxcli::command().is_read() && crate::vxcli::command().motor() == Some(crate::cli::options::MotorId::Broadcast) ==> r is Err,
    r is Ok && !(crate::vxcli::command() is ShellCompletion) ==> crate::vxcli::performed(),
loop 0 kind iter
loop 0
    ensures
        crate::vxcli::performed(),
    decreases
        vx_it0.left(),

## fn cli::open_client
props C25
requires
    *options == crate::vxcli::options(),
ensures [C25]
    r is Ok ==> !r->Ok_0.used(),

## fn cli::log_ping_response
attr stub

## fn cli::write_shell_completion
attr stub

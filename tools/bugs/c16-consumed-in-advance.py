PROPERTY = 'C16'
NEEDS = 'a select() loop is left while several receivers are ready'
BREAKS = 'all ready receivers are consumed before the first is yielded: leaving the loop loses the messages of the others'
EDITS = [('_select.py', '            for task in done:\n                receiver_active: bool = True\n                name = task.get_name()\n', '            selected_tasks = [\n                (task, Selected(receivers_map[task.get_name()]))\n                for task in done\n                if not task.exception()\n            ] + [(task, None) for task in done if task.exception()]\n            for task, ready_selected in selected_tasks:\n                receiver_active: bool = True\n                name = task.get_name()\n'), ('_select.py', '                selected = Selected(recv)\n', '                selected = ready_selected or Selected(recv)\n')]
DEMO = '''import asyncio
from frequenz.channels import *
from frequenz.channels.event import Event
from frequenz.channels.timer import *
from datetime import timedelta


def check(ok, what="property violated"):
    if not ok:
        raise SystemExit(what)


async def spin(n=10):
    for _ in range(n):
        await asyncio.sleep(0)


async def main():
    a, b = Anycast(name="a"), Anycast(name="b")
    ra, rb = a.new_receiver(), b.new_receiver()
    await a.new_sender().send(1)
    await b.new_sender().send(2)
    got = []
    async for selected in select(ra, rb):
        if selected_from(selected, ra) or selected_from(selected, rb):
            got.append(selected.message)
            break
    await spin()
    other = ra if got == [2] else rb
    task = asyncio.create_task(other.receive())
    await spin()
    check(task.done() and got + [task.result()] in ([1, 2], [2, 1]), "message lost")


asyncio.run(asyncio.wait_for(main(), 20))
'''

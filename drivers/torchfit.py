"""The fitters of the PyTorch front end, recorded for TraceFit."""
import torch
from common import *  # noqa
from fitter import fit

from deodr.pytorch import mesh_fitter_pytorch as P

torch.set_num_threads(1)
TORCH = dict(depth=P.MeshDepthFitter, rgb=P.MeshRGBFitterWithPose)
SHIFTED = ("depth", "rgb")



class Optim:
    """a fitter by LBFGS with the members of the others"""

    def __init__(self, vertices, faces, euler_init, translation_init, cregu, inertia, damping):
        self.lr = float(RNG.choice([0.8, 0.5, 0.25]))
        kw = {} if self.lr == 0.8 and RNG.random() < 0.5 else dict(lr=self.lr)
        self.x = P.MeshDepthFitterPytorchOptim(vertices, faces, euler_init, translation_init, cregu, **kw)
        self.set_max_depth, self.set_depth_scale = self.x.set_max_depth, self.x.set_depth_scale

    def set_image(self, image, focal=None, distortion=None):
        self.x.set_image(image, focal=focal)

    def step(self):
        e, depth, diff = self.x.step()
        return e.item(), depth, diff

    vertices = property(lambda self: self.x.energy._vertices.detach().numpy().copy())
    transform_quaternion = property(lambda self: self.x.energy.quaternion.detach().numpy().copy())
    transform_translation = property(lambda self: self.x.energy.translation.detach().numpy().copy())
    camera = property(lambda self: self.x.energy.camera)


def lbfgs():
    made = []

    def make(*a, **kw):
        made.append(Optim(*a, **kw))
        return made[-1]

    tr = fit("depth", 4, dict(depth=make), (), units=False)
    tr["lr"] = num(made[-1].lr) if made else "0"
    return tr


K = 10 if THOROUGH else 1
FAMILIES = {
    "depth": lambda: [fit("depth", 3, TORCH, SHIFTED) for _ in range(8 * K)],
    "rgb": lambda: [fit("rgb", 3, TORCH, SHIFTED) for _ in range(8 * K)],
    "lbfgs": lambda: [lbfgs() for _ in range(8 * K)],
}
if __name__ == "__main__":
    write(FAMILIES[ARGS.family]())

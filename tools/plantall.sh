for i in "$@"; do echo "== $i"; bash /tmp/plant.sh $i; done

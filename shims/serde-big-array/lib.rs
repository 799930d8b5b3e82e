pub struct BigArray;
